From 3e82182686bb5a654786eb1d11b624b7555440a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:46 +0000
Subject: [PATCH 01/61] fix: seek back from the end of file to the first SEG-Y
 trailer stanza

The offset had the wrong sign, so a file with a known number of trailer
stanzas could not be opened.
---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..e120d3a 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+							  common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From 43f2539bd22c1e90e327542f2b16c71ad2efa511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:46 +0000
Subject: [PATCH 02/61] fix: count trace headers when skipping fixed length
 traces

With an unknown number of trailer stanzas the reader skipped only the
samples of each trace and looked for the stanzas inside the trace data.
---
 src/ISEGY.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index e120d3a..9acbb73 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,8 +353,13 @@ void ISEGY::Impl::read_trailer_stanzas()
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
-							  common.binary_header.num_of_tr_in_file,
+            streamoff trc_size = CommonSEGY::TR_HEADER_SIZE *
+				(1 + static_cast<streamoff>(
+					common.binary_header.max_num_add_tr_headers)) +
+				static_cast<streamoff>(common.bytes_per_sample) *
+				common.samp_per_tr;
+            common.file.seekg(trc_size * static_cast<streamoff>(
+								  common.binary_header.num_of_tr_in_file),
 							  ios_base::cur);
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
-- 
2.43.0


From a3af252ab54b5f1dc5d596e60b971438ef2a4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:46 +0000
Subject: [PATCH 03/61] fix: read variable length traces with more than 32767
 samples

The 16 bit number of samples was sign extended: such a trace could not be
read and skipping it moved the reader backwards.
---
 src/ISEGY.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 9acbb73..66c364b 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -51,6 +51,7 @@ public:
     streampos first_trace_pos;
     streampos curr_pos;
     streampos end_of_data;
+    uint64_t samp_num(unordered_map<string, Trace::Header::Value>& hdr);
     unordered_map<string, Trace::Header::Value> read_trc_header();
     function<vector<double>(unordered_map<string, Trace::Header::Value>&)>
 	   	read_trc_smpls;
@@ -378,7 +379,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
                 // get number of samples from main header
                 char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
+                uint32_t trc_samp_num = read_u16(&ptr);
                 if (common.binary_header.max_num_add_tr_headers) {
                     // if there are additional header(s)
                     // get number of samples from first additional header
@@ -512,6 +513,14 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
     return hdr;
 }
 
+uint64_t ISEGY::Impl::samp_num(unordered_map<string,
+							   Trace::Header::Value>& hdr)
+{
+    int64_t num = get<int64_t>(hdr["SAMP_NUM"]);
+    /* number of samples wrapped in 16 bit header */
+    return num < 0 && num >= INT16_MIN ? static_cast<uint16_t>(num) : num;
+}
+
 Trace::Header ISEGY::read_header()
 {
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
@@ -520,9 +529,8 @@ Trace::Header ISEGY::read_header()
         pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
 							   pimpl->common.bytes_per_sample);
     } else {
-        Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
-        pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(pimpl->samp_num(hdr) *
+							   pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
 }
@@ -540,10 +548,9 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    Trace::Header::Value v = hdr["SAMP_NUM"];
-    size_t samp_num = get<int64_t>(v);
-    if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
-        common.samp_buf.resize(samp_num * common.bytes_per_sample);
+    size_t num = samp_num(hdr);
+    if (common.samp_buf.size() != num * common.bytes_per_sample)
+        common.samp_buf.resize(num * common.bytes_per_sample);
     return read_trc_smpls_fix();
 }
 
-- 
2.43.0


From 4e276cc27509a1df3ff6fc7612ae28a5124a7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 04/61] fix: copying an Exception dereferenced a null pointer

---
 src/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..50a0afd 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,8 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From f3b99b4bda1bffbda76bb116fad1e379ee7a6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 05/61] fix: reading past the last SEG-Y trace throws instead
 of decoding the trailer

---
 src/ISEGY.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 66c364b..f905a2b 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -456,6 +456,8 @@ void ISEGY::Impl::assign_bytes_per_sample()
 
 unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
+    if (common.file.tellg() == end_of_data)
+        throw Exception(__FILE__, __LINE__, "no more traces in file");
     unordered_map<string, Trace::Header::Value> hdr;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
 		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
-- 
2.43.0


From 42d02abf96f4f5e926bad14819a7ea9561b64d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 06/61] fix: sorted SEG-Y reader with no traces and reads past
 its last trace

---
 src/ISEGYSorted1D.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..8c83598 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,14 +34,17 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
-    vec_cur = map_cur->second.begin();
-    vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
+    if (map_cur != map_end) {
+        vec_cur = map_cur->second.begin();
+        vec_end = map_cur->second.end();
+    }
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
 
 Trace::Header ISEGYSorted1D::read_header() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces in file");
     common().file.seekg(*pimpl->vec_cur);
     Trace::Header hdr = ISEGY::read_header();
     ++pimpl->vec_cur;
@@ -56,6 +59,8 @@ Trace::Header ISEGYSorted1D::read_header() {
 }
 
 Trace ISEGYSorted1D::read_trace() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces in file");
     common().file.seekg(*pimpl->vec_cur);
     Trace trc = ISEGY::read_trace();
     ++pimpl->vec_cur;
-- 
2.43.0


From 9b7889dc200e15ce2ae0325cb6db95ffae765f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 07/61] fix: check the first field of a trace header map
 against the header size

---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..700d037 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,9 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first + size > 240)
+				throw Exception(__FILE__, __LINE__,
+					string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +94,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From 0263a46d63b907b2891ed215c1b06eb857dbb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 08/61] fix: rev 0 default text header had its revision field
 replaced by 32 form feeds

---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From d2cadeabe4018ed5697998ef4e9e6338fddd41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:32 +0000
Subject: [PATCH 09/61] fix: signed SEG-Y writers took unsigned values,
 undefined for negative samples

---
 src/OSEGY.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..d436b0f 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -43,15 +43,15 @@ public:
 
 private:
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_sample;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
-- 
2.43.0


From 02ea3c65e3a4a9273400453160711d229197787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:32 +0000
Subject: [PATCH 10/61] fix: IBM float writer for zero, exact powers of 16 and
 values below its range

---
 src/OSEGY.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index d436b0f..9309dab 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -146,12 +146,16 @@ void OSEGY::Impl::assign_raw_writers()
     }
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
-        double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        int exp2;
+        double mant = std::frexp(abs(val), &exp2); // 0 or [0.5, 1)
+        // smallest power of 16 which is greater than value
+        int exp = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        uint32_t fraction = std::ldexp(mant, exp2 - 4 * exp + 24);
+        exp += 64;
+        if (!fraction || exp < 0)
+            exp = fraction = 0;
+        uint32_t result = sign << 31 | (static_cast<uint32_t>(exp) & 0x7f)
+		   	<< 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
 }
-- 
2.43.0


From 53cc585a11bcce54e8468edc1cf0e146c3f6157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:45 +0000
Subject: [PATCH 11/61] fix: write floating point trace header values and
 values of fields of the other kind

---
 src/OSEGY.cpp | 63 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 9309dab..c9a3e05 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -23,6 +23,17 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+// trace header value converted to the type of field, zero if it is absent
+template <typename T>
+static T as(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    if (std::holds_alternative<double>(*v))
+        return static_cast<T>(get<double>(*v));
+    return static_cast<T>(get<int64_t>(*v));
+}
+
 class OSEGY::Impl {
 public:
     Impl(CommonSEGY com)
@@ -299,55 +310,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, as<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, as<double>(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, as<double>(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, as<double>(tmp));
 				break;
 		}
 	}
@@ -368,55 +379,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, as<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, as<double>(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, as<double>(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, as<double>(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 308e2b1c5acac0a1685bb78b3f904fe1661e3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:45 +0000
Subject: [PATCH 12/61] fix: the last additional trace header was not written

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index c9a3e05..a8bbb8b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -369,7 +369,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From f6f45482abd3005df8ebbf2607e0c9c2ce2e31e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:14 +0000
Subject: [PATCH 13/61] fix: reject traces whose number of samples differs from
 the headers written

---
 src/OSEGY.cpp     | 8 +++++++-
 src/OSEGYRev0.cpp | 4 ++--
 src/OSEGYRev1.cpp | 4 ++--
 src/OSEGYRev2.cpp | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index a8bbb8b..b88cc41 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -456,8 +456,11 @@ void OSEGY::Impl::write_trailer_stanzas()
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
+    if (samp_num != static_cast<int64_t>(t.samples().size()))
+        throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
+						"equal to the number in its header");
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
         common.samp_buf.resize(bytes_num);
@@ -468,6 +471,9 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
     char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
+    if (samples.size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
+						"equal to the number in binary header");
     for (auto samp : samples)
         write_sample(&buf, samp);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..8ee00be 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,7 +68,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
@@ -76,7 +76,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..035cb7d 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -80,7 +80,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
@@ -88,7 +88,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..1402c7b 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -131,7 +131,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
@@ -139,7 +139,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
+        v = tr.header().get("SAMP_INT").value();
         double samp_int = get<int64_t>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 12fcfc1232b9e940d80c64cf3423a381351b3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:40 +0000
Subject: [PATCH 14/61] fix: fixed length traces with extended number of
 samples

---
 src/OSEGYRev0.cpp | 9 ++++++---
 src/OSEGYRev1.cpp | 9 ++++++---
 src/OSEGYRev2.cpp | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 8ee00be..2199955 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -57,9 +57,12 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 	zero.format_code = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
-        sgy.common().samp_buf.resize(static_cast<uint16_t>(
-				sgy.common().binary_header.samp_per_tr) *
-			sgy.common().bytes_per_sample);
+        // the same rule is used for reading
+        sgy.common().samp_per_tr = sgy.common().binary_header.ext_samp_per_tr ?
+        	sgy.common().binary_header.ext_samp_per_tr :
+        	static_cast<uint16_t>(sgy.common().binary_header.samp_per_tr);
+        sgy.common().samp_buf.resize(static_cast<size_t>(
+        	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 035cb7d..86e33af 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -60,9 +60,12 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            // the same rule is used for reading
+            sgy.common().samp_per_tr = sgy.common().binary_header.ext_samp_per_tr ?
+            	sgy.common().binary_header.ext_samp_per_tr :
+            	static_cast<uint16_t>(sgy.common().binary_header.samp_per_tr);
+            sgy.common().samp_buf.resize(static_cast<size_t>(
+            	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1402c7b..c190861 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -67,9 +67,12 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            // the same rule is used for reading
+            sgy.common().samp_per_tr = sgy.common().binary_header.ext_samp_per_tr ?
+            	sgy.common().binary_header.ext_samp_per_tr :
+            	static_cast<uint16_t>(sgy.common().binary_header.samp_per_tr);
+            sgy.common().samp_buf.resize(static_cast<size_t>(
+            	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     sgy.write_trace_header(tr.header());
-- 
2.43.0


From f0ef6913020bf492664a00a8266cd3549012b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:59 +0000
Subject: [PATCH 15/61] fix: rev 1 and 2 writers record revision, text header,
 trailer counts and first trace offset they write

---
 src/OSEGYRev1.cpp | 13 +++++++++----
 src/OSEGYRev2.cpp | 28 +++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 86e33af..8a6347c 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,16 +49,20 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+    bool empty_bin_hdr = !memcmp(&sgy.common().binary_header, &zero,
+								 sizeof(CommonSEGY::BinaryHeader));
+    sgy.common().binary_header.SEGY_rev_major_ver = 1;
+    sgy.common().binary_header.SEGY_rev_minor_ver = 0;
+    sgy.common().binary_header.ext_text_headers_num = txt_hdrs.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!empty_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             // the same rule is used for reading
             sgy.common().samp_per_tr = sgy.common().binary_header.ext_samp_per_tr ?
@@ -107,6 +111,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.common().samp_buf.resize
 					(samp_num * sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
+				sgy.common().file.seekg(first_trace_pos);
 			}
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index c190861..0b7fc4d 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,16 +56,29 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+    bool empty_bin_hdr = !memcmp(&sgy.common().binary_header, &zero,
+								 sizeof(CommonSEGY::BinaryHeader));
+    if (sgy.common().binary_header.SEGY_rev_major_ver != 2) {
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
+        sgy.common().binary_header.SEGY_rev_minor_ver = 0;
+    }
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
+    sgy.common().binary_header.num_of_trailer_stanza =
+	   	sgy.common().trailer_stanzas.size();
+    if (sgy.common().binary_header.byte_off_of_first_tr)
+        sgy.common().binary_header.byte_off_of_first_tr =
+		   	CommonSEGY::BIN_HEADER_SIZE + CommonSEGY::TEXT_HEADER_SIZE *
+		   	sgy.common().text_headers.size();
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (!empty_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             // the same rule is used for reading
             sgy.common().samp_per_tr = sgy.common().binary_header.ext_samp_per_tr ?
@@ -143,7 +156,11 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
         v = tr.header().get("SAMP_INT").value();
-        double samp_int = get<int64_t>(v);
+        double samp_int;
+        if (std::holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
@@ -151,6 +168,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             sgy.common().binary_header.samp_int = samp_int;
         sgy.common().samp_buf.resize(samp_num * sgy.common().bytes_per_sample);
 		sgy.write_bin_header();
+		sgy.common().file.seekg(first_trace_pos);
     }
 }
 
-- 
2.43.0


From 802f896eee2f274920338f589ebbad3c9f0e0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:42 +0000
Subject: [PATCH 16/61] fix: byte order constant of big endian SEG-Y files was
 written reversed

---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index b88cc41..5b6e095 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -286,7 +286,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // constant is kept as it was read, its bytes order is not to be changed
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 880ea3b0fb722140981786f1a80bfc5f989d6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:35 +0000
Subject: [PATCH 17/61] fix: reject traces that extend past the end of trace
 data

---
 src/ISEGY.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f905a2b..3f24dfd 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -456,7 +456,9 @@ void ISEGY::Impl::assign_bytes_per_sample()
 
 unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
-    if (common.file.tellg() == end_of_data)
+    if (end_of_data - common.file.tellg() < CommonSEGY::TR_HEADER_SIZE *
+	   	(1 + static_cast<streamoff>(
+			common.binary_header.max_num_add_tr_headers)))
         throw Exception(__FILE__, __LINE__, "no more traces in file");
     unordered_map<string, Trace::Header::Value> hdr;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
@@ -520,7 +522,12 @@ uint64_t ISEGY::Impl::samp_num(unordered_map<string,
 {
     int64_t num = get<int64_t>(hdr["SAMP_NUM"]);
     /* number of samples wrapped in 16 bit header */
-    return num < 0 && num >= INT16_MIN ? static_cast<uint16_t>(num) : num;
+    uint64_t result = num < 0 && num >= INT16_MIN ?
+	   	static_cast<uint16_t>(num) : num;
+    if (result > static_cast<uint64_t>(end_of_data - common.file.tellg()) /
+	   	common.bytes_per_sample)
+        throw Exception(__FILE__, __LINE__, "trace is out of trace data");
+    return result;
 }
 
 Trace::Header ISEGY::read_header()
@@ -539,6 +546,9 @@ Trace::Header ISEGY::read_header()
 
 vector<double> ISEGY::Impl::read_trc_smpls_fix()
 {
+    if (end_of_data - common.file.tellg() <
+	   	static_cast<streamoff>(common.samp_buf.size()))
+        throw Exception(__FILE__, __LINE__, "trace is out of trace data");
     fill_buf_from_file(common.samp_buf.data(), common.samp_buf.size());
     char const* buf = common.samp_buf.data();
     vector<double> result(common.samp_buf.size() / common.bytes_per_sample);
-- 
2.43.0


From b793bf51877a2a244b55680a93578f5f8d88a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 18/61] fix: a refused trace left its header in the SEG-Y file

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 32 ++++++++++++++++++++++++++------
 src/OSEGYRev0.cpp |  3 +++
 src/OSEGYRev1.cpp |  4 ++++
 src/OSEGYRev2.cpp |  9 +++++++++
 5 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..0868b8b 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -61,6 +61,8 @@ protected:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_trace_samples_fix(Trace const& t);
+    void check_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 5b6e095..6bcda5d 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -49,6 +49,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_trace_samples_fix(Trace const& t);
+    void check_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
@@ -455,13 +457,25 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
-void OSEGY::Impl::write_trace_samples_var(Trace const& t)
+void OSEGY::Impl::check_trace_samples_var(Trace const& t)
 {
     Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
-    int64_t samp_num = get<int64_t>(v);
-    if (samp_num != static_cast<int64_t>(t.samples().size()))
+    if (get<int64_t>(v) != static_cast<int64_t>(t.samples().size()))
         throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
 						"equal to the number in its header");
+}
+
+void OSEGY::Impl::check_trace_samples_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
+						"equal to the number in binary header");
+}
+
+void OSEGY::Impl::write_trace_samples_var(Trace const& t)
+{
+    check_trace_samples_var(t);
+    uint64_t samp_num = t.samples().size();
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
         common.samp_buf.resize(bytes_num);
@@ -472,9 +486,7 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
     char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
-    if (samples.size() * common.bytes_per_sample != common.samp_buf.size())
-        throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
-						"equal to the number in binary header");
+    check_trace_samples_fix(t);
     for (auto samp : samples)
         write_sample(&buf, samp);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
@@ -503,6 +515,14 @@ void OSEGY::write_additional_trace_headers(Trace::Header const& hdr)
 {
     pimpl->write_additional_trace_headers(hdr);
 }
+void OSEGY::check_trace_samples_fix(Trace const& t)
+{
+    pimpl->check_trace_samples_fix(t);
+}
+void OSEGY::check_trace_samples_var(Trace const& t)
+{
+    pimpl->check_trace_samples_var(t);
+}
 void OSEGY::write_trace_samples_fix(Trace const& t)
 {
     pimpl->write_trace_samples_fix(t);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 2199955..e777c6e 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -64,6 +64,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         sgy.common().samp_buf.resize(static_cast<size_t>(
         	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
+            sgy.check_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
@@ -71,6 +72,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
+                sgy.check_trace_samples_var(tr);
                 Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num > INT16_MAX)
@@ -95,6 +97,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 											 sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
             }
+            sgy.check_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 8a6347c..211f2cb 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -71,11 +71,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
             sgy.common().samp_buf.resize(static_cast<size_t>(
             	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
+                sgy.check_trace_samples_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.check_trace_samples_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -87,6 +89,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
+				sgy.check_trace_samples_var(tr);
 				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
@@ -113,6 +116,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.write_bin_header();
 				sgy.common().file.seekg(first_trace_pos);
 			}
+			sgy.check_trace_samples_var(tr);
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
         };
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 0b7fc4d..bea3884 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -88,24 +88,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             	sgy.common().samp_per_tr) * sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -115,6 +119,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
@@ -122,6 +127,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
@@ -129,6 +135,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
@@ -136,6 +143,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -147,6 +155,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
+        sgy.check_trace_samples_var(tr);
         Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
-- 
2.43.0


From 926826354c2c2b389de0df52a2f343f2f16433e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:58 +0000
Subject: [PATCH 19/61] fix: decode SEG-D sample formats 8015, 8022, 8024,
 8042, 8044, 8048 and 9036

Sample pointers were advanced in the local variable, exponents were not
shifted, fractions were and-ed together, quaternary exponents were powers
of two, hexadecimal 32 bit exponents were not excess 64, little endian 24 bit
samples lost their byte order and sign, and 20 bit groups of four shared
state between traces and readers.
---
 src/ISEGD.cpp | 80 +++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..db20289 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -54,6 +54,9 @@ private:
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
+    // samples of the current group of four for format 8015
+    double group[4];
+    int group_pos;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
     function<uint16_t(char const**)> read_u16;
@@ -920,38 +923,38 @@ void ISEGD::Impl::assign_sample_reading()
     case 8015:
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
+            // samples are stored in groups of four
+            if (group_pos == 4)
+                group_pos = 0;
+            if (!group_pos) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t byte = read_u8(buf);
+                    exp[i] = byte >> 4;
+                    exp[i + 1] = byte & 0xf;
                 }
                 for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
+                    group[i] = read_i16(buf) * pow(2, exp[i] - 15);
             }
-            return result[counter++];
+            return group[group_pos++];
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            uint8_t byte = read_u8(buf);
+            int sign = byte & 0b10000000 ? -1 : 1;
+            int exp = (byte & 0b01110000) >> 4;
+            return sign * (byte & 0xf) / pow(2, 4) * pow(4, exp);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t word = read_u16(buf);
+            int sign = word & 0x8000 ? -1 : 1;
+            int exp = (word & 0x7000) >> 12;
+            return sign * (word & 0xfff) / pow(2, 12) * pow(4, exp);
         };
         break;
     case 8036:
@@ -964,29 +967,25 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint8_t byte = read_u8(buf);
+            int sign = byte & 0b10000000 ? -1 : 1;
+            int exp = (byte & 0b01100000) >> 5;
+            return sign * (byte & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t word = read_u16(buf);
+            int sign = word & 0x8000 ? -1 : 1;
+            int exp = (word & 0x6000) >> 13;
+            return sign * (word & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
@@ -1013,9 +1012,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= static_cast<uint32_t>(read<uint8_t>(buf)) << 16;
+                return static_cast<int32_t>(result & 0x800000 ?
+                    result | 0xff000000 : result);
             };
         break;
     case 9038:
@@ -1364,8 +1364,12 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
+    if (common.general_header.format_code == 8015)
+        common.trc_samp_buf.resize((samp_num + 3) / 4 * 10);
+    else if (common.trc_samp_buf.size() !=
+        (samp_num * common.bits_per_sample) / 8)
         common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    group_pos = 0;
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From 8325443c1fcb1f476dfbc137f4527f77ab247656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 20/61] fix: general trailer of a SEG-D record was read as the
 next record

---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index db20289..982d682 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -129,7 +129,7 @@ private:
 
 bool ISEGD::has_record()
 {
-    return pimpl->curr_pos != pimpl->end_of_data;
+    return streamoff(pimpl->curr_pos) < streamoff(pimpl->end_of_data);
 }
 
 bool ISEGD::has_trace()
@@ -145,6 +145,7 @@ Trace ISEGD::read_trace()
     vector<double> samples = pimpl->read_trace_samples(hdr);
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
+        pimpl->read_trailer();
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         if (has_record())
@@ -1395,7 +1396,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From a085a013697f955d02ceec7709f5e3def51943d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:05 +0000
Subject: [PATCH 21/61] fix: reading past the last SEG-D trace decoded whatever
 followed

---
 src/ISEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 982d682..448c392 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -139,6 +139,8 @@ bool ISEGD::has_trace()
 
 Trace ISEGD::read_trace()
 {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "there are no traces left");
     unordered_map<string, Trace::Header::Value> hdr =
 	   	pimpl->read_trace_header();
     pimpl->read_trace_header_ext(hdr);
-- 
2.43.0


From 54e1fd52d616b4aa27342d40410f6a7b06646592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:09 +0000
Subject: [PATCH 22/61] fix: header blocks of one SEG-D record were reported
 for the next one

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 448c392..d067a92 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -288,6 +288,9 @@ void ISEGD::Impl::assign_raw_readers()
 
 void ISEGD::Impl::read_general_headers()
 {
+    common.general_header2 = {};
+    common.general_header3 = {};
+    common.add_gen_hdr_blks_map.clear();
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
-- 
2.43.0


From b208579bd45a3f2a72e00cee89dfd281c753b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:15 +0000
Subject: [PATCH 23/61] fix: extended counts of SEG-D channel sets and header
 blocks

Two BCD digits ff read as 165, not 1665; the writer stored the count itself
and compared the number of blocks with the wrong count.
---
 src/ISEGD.cpp       | 2 +-
 src/OSEGD.cpp       | 5 ++++-
 src/OSEGDRev2_1.cpp | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d067a92..c144b39 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -175,7 +175,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type ==	165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..4fbefa6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -217,7 +217,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
+			   2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..3c1acbd 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type > 99 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
@@ -52,11 +52,11 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
         }
     }
     uint32_t extended_blocks =
-	   	sgd.common().general_header.extended_hdr_blocks == 165 ?
+	   	sgd.common().general_header.extended_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.extended_hdr_blocks :
 	   	sgd.common().general_header.extended_hdr_blocks;
     uint32_t external_blocks =
-	   	sgd.common().general_header.external_hdr_blocks == 165 ?
+	   	sgd.common().general_header.external_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
     for (uint32_t i = 0; i < extended_blocks; ++i)
-- 
2.43.0


From 5c4a79a7056390951c48c8b67966170b509a5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:58 +0000
Subject: [PATCH 24/61] fix: general header 2 of SEG-D rev 3 was read without
 extended record length

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c144b39..86fd395 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -395,9 +395,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From bb3ec3f4c095f7855297d2d2c36c4ce970207dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:58 +0000
Subject: [PATCH 25/61] fix: SEG-D rev 3 file without general header block 3
 was read as 65535 blocks

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 86fd395..1e9ac3b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -315,6 +315,9 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
+            if (add_blks_num < 2)
+                throw Exception(__FILE__, __LINE__,
+                    "rev 3 needs general header blocks 2 and 3");
             for (uint16_t i = add_blks_num - 2; i; --i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From 35588fcc42982f7fa2f09d735c9f6eca89b42ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 26/61] fix: SEG-D traces without number of samples in their
 headers read as empty

Channel sets of revisions before 3 reported zero as their number of samples;
it follows from the times of the channel set and the base scan interval.
---
 src/ISEGD.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 1e9ac3b..2157cbe 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1152,6 +1152,16 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         filter_delay = read_u32(&buf);
         memcpy(description.data(), buf, description.size());
     }
+    if (!common.general_header.add_gen_hdr_blocks ||
+        common.general_header2.segd_rev_major < 3)
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     return CommonSEGD::ChannelSetHeader(
         scan_type_number, channel_set_number, channel_type,
         channel_set_start_time, channel_set_end_time, descale_multiplier,
@@ -1372,8 +1382,15 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
         samp_num = *curr_ch_set.number_of_samples();
+    else if (common.general_header.base_scan_int > 0 &&
+        curr_ch_set.channel_set_end_time >= curr_ch_set.channel_set_start_time)
+        samp_num = (curr_ch_set.channel_set_end_time -
+            curr_ch_set.channel_set_start_time) /
+            common.general_header.base_scan_int *
+            curr_ch_set.subscans_per_ch_set;
     else
-        samp_num = curr_ch_set.subscans_per_ch_set;
+        throw Exception(__FILE__, __LINE__,
+            "number of samples is not specified");
     if (common.general_header.format_code == 8015)
         common.trc_samp_buf.resize((samp_num + 3) / 4 * 10);
     else if (common.trc_samp_buf.size() !=
-- 
2.43.0


From 2fb5afeff25e894a2b17872c4a299b282302ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:04 +0000
Subject: [PATCH 27/61] fix: filter delay of SEG-D channel sets was cut to
 eight bits

---
 src/CommonSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..83c2091 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -271,7 +271,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From 6ad5d13d346304e44104eb68e0e8cea32300b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 28/61] fix: descale multiplier of SEG-D rev 3 channel sets is
 a floating point number

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 2157cbe..bbf6323 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1128,7 +1128,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         channel_set_start_time = read_u32(&buf);
         channel_set_end_time = read_u32(&buf);
         number_of_samples = read_u32(&buf);
-        descale_multiplier = read_u32(&buf);
+        descale_multiplier = dbl_from_IEEE_float(&buf);
         number_of_channels = read_u24(&buf);
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
-- 
2.43.0


From 28492eeea5aeb49109652800cb46b2bc1502053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:12 +0000
Subject: [PATCH 29/61] fix: SEG-D trace header extensions beyond the maps
 given, and their uint64 fields

---
 src/ISEGD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index bbf6323..3657f65 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1290,6 +1290,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // skip extensions without map
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
@@ -1321,7 +1324,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From f708fe5ce86dfcf9c874950010b15b27c62c38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:16 +0000
Subject: [PATCH 30/61] fix: extended trace number of SEG-D rev 3 was ignored

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 3657f65..3d7a700 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1363,8 +1363,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From 50ef4788ec4765f0a6a8911491eb2489a638ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:49 +0000
Subject: [PATCH 31/61] fix: SEG-D traces of channel sets that do not exist or
 beyond the end of file

Indexes were not checked, and a number of samples times bits per sample over
32 bits made the buffer smaller than what was read from it.
---
 src/ISEGD.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 3d7a700..f69e8a7 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1377,10 +1377,15 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
 vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    uint32_t samp_num;
+    uint64_t samp_num;
+    size_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    size_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to channel set that does not exist");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+        common.channel_sets[scan_type][ch_set];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
@@ -1394,6 +1399,8 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
     else
         throw Exception(__FILE__, __LINE__,
             "number of samples is not specified");
+    if (samp_num > static_cast<uint64_t>(end_of_data - curr_pos))
+        throw Exception(__FILE__, __LINE__, "trace goes beyond end of file");
     if (common.general_header.format_code == 8015)
         common.trc_samp_buf.resize((samp_num + 3) / 4 * 10);
     else if (common.trc_samp_buf.size() !=
@@ -1404,7 +1411,7 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
     double descale = pow(2, curr_ch_set.descale_multiplier);
-    for (uint32_t i = 0; i < samp_num; ++i)
+    for (uint64_t i = 0; i < samp_num; ++i)
         result[i] = read_sample(&buf) * descale;
     return result;
 }
-- 
2.43.0


From dd92ac01e74021d977a1572f76ec4d1e90eba1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:25 +0000
Subject: [PATCH 32/61] fix: SEG-D trace header extension maps were never
 checked

---
 src/ISEGD.cpp | 129 +++++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 71 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index f69e8a7..426e897 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -166,6 +166,7 @@ ISEGD::Impl::Impl(CommonSEGD com)
     common.file.seekg(0, ios_base::beg);
     curr_pos = common.file.tellg();
     assign_raw_readers();
+    check_trc_hdr_ext();
     read_headers_before_traces();
 }
 
@@ -1176,80 +1177,66 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
 void ISEGD::Impl::check_trc_hdr_ext()
 {
     if (common.trace_header_extension.size()) {
-        // for now all channel sets should have the same trace header extension
-        // number
-        for (auto& scan_type : common.channel_sets)
-            for (auto& ch_set : scan_type)
-                if (ch_set.trc_hdr_ext &&
-                ch_set.trc_hdr_ext != common.trace_header_extension.size())
-                    throw Exception(__FILE__, __LINE__,
-                        "Number of trace header extension in channel set " +
-                        to_string(ch_set.channel_set_number) +
-                        " not equal to number of maps in provided vector");
-        int first = 1, size = 0;
-        uint32_t prev;
+        int size = 0;
         for (auto& hdr_map : common.trace_header_extension) {
+            // end of previous field
+            uint64_t prev = 0;
             for (auto& i : hdr_map) {
-                if (first) {
-                    prev = i.first;
-                    first = 0;
-                } else {
-                    switch (i.second.second) {
-                    case Trace::Header::ValueType::int8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::uint8_t:
-                        size = 1;
-                        break;
-                    case Trace::Header::ValueType::int16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::uint16_t:
-                        size = 2;
-                        break;
-                    case Trace::Header::ValueType::int24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::uint24_t:
-                        size = 3;
-                        break;
-                    case Trace::Header::ValueType::int32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::uint32_t:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::int64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::uint64_t:
-                        size = 8;
-                        break;
-                    case Trace::Header::ValueType::ibm:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_single:
-                        size = 4;
-                        break;
-                    case Trace::Header::ValueType::ieee_double:
-                        size = 8;
-                        break;
-                    default:
-                        throw Exception(__FILE__, __LINE__,
-                            "impossible, unexpected type in "
-                            "TrHdrValueType");
-                    }
-                    if (i.first - prev < static_cast<uint32_t>(size))
-                        throw Exception(__FILE__, __LINE__,
-                            string("overlapping type/offset in "
-                                   "trace headers extension map: ")
-                                + to_string(i.first));
-                    if (i.first + size > CommonSEGD::TRACE_HEADER_EXT_SIZE)
-                        throw Exception(__FILE__, __LINE__,
-                            string("trace header extension map will write over "
-                            "buffer bound"));
-                    prev = i.first;
+                switch (i.second.second) {
+                case Trace::Header::ValueType::int8_t:
+                    size = 1;
+                    break;
+                case Trace::Header::ValueType::uint8_t:
+                    size = 1;
+                    break;
+                case Trace::Header::ValueType::int16_t:
+                    size = 2;
+                    break;
+                case Trace::Header::ValueType::uint16_t:
+                    size = 2;
+                    break;
+                case Trace::Header::ValueType::int24_t:
+                    size = 3;
+                    break;
+                case Trace::Header::ValueType::uint24_t:
+                    size = 3;
+                    break;
+                case Trace::Header::ValueType::int32_t:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::uint32_t:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::int64_t:
+                    size = 8;
+                    break;
+                case Trace::Header::ValueType::uint64_t:
+                    size = 8;
+                    break;
+                case Trace::Header::ValueType::ibm:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::ieee_single:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::ieee_double:
+                    size = 8;
+                    break;
+                default:
+                    throw Exception(__FILE__, __LINE__,
+                        "impossible, unexpected type in "
+                        "TrHdrValueType");
                 }
+                if (i.first < prev)
+                    throw Exception(__FILE__, __LINE__,
+                        string("overlapping type/offset in "
+                               "trace headers extension map: ")
+                            + to_string(i.first));
+                prev = static_cast<uint64_t>(i.first) + size;
+                if (prev > CommonSEGD::TRACE_HEADER_EXT_SIZE)
+                    throw Exception(__FILE__, __LINE__,
+                        string("trace header extension map will write over "
+                        "buffer bound"));
             }
         }
     }
-- 
2.43.0


From 412bf4a220bc03201c7bcba46e1febe38970d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:24 +0000
Subject: [PATCH 33/61] fix: signed SEG-D writers took unsigned values,
 undefined for negative samples

---
 src/OSEGD.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4fbefa6..26dde3f 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -46,15 +46,15 @@ public:
 private:
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
     function<void(char**, double)> write_IEEE_double;
@@ -108,7 +108,7 @@ void OSEGD::Impl::assign_raw_writers()
         };
         write_u32 = [](char** buf, uint32_t val)
 	   	{ write<uint32_t>(buf, val); };
-        write_u32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
+        write_i32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
         write_u64 = [](char** buf, uint64_t val)
 	   	{ write<uint64_t>(buf, val); };
         write_i64 = [](char** buf, int64_t val)
-- 
2.43.0


From 646ab2cd217d9f45f787956ca38db5be686983a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:24 +0000
Subject: [PATCH 34/61] fix: IBM float writer of SEG-D for zero, exact powers
 of 16 and values below its range

---
 src/OSEGD.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 26dde3f..c216067 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -173,12 +173,16 @@ void OSEGD::Impl::assign_raw_writers()
     }
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
-        double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        int exp2;
+        double mant = std::frexp(abs(val), &exp2); // 0 or [0.5, 1)
+        // smallest power of 16 which is greater than value
+        int exp = exp2 > 0 ? (exp2 + 3) / 4 : exp2 / 4;
+        uint32_t fraction = std::ldexp(mant, exp2 - 4 * exp + 24);
+        exp += 64;
+        if (!fraction || exp < 0)
+            exp = fraction = 0;
+        uint32_t result = sign << 31 | (static_cast<uint32_t>(exp) & 0x7f)
+		   	<< 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
 }
-- 
2.43.0


From 146cde693286d99d4b6f689881592a7242499200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:24 +0000
Subject: [PATCH 35/61] fix: encode SEG-D sample formats 8015, 8022, 8024,
 8042, 8044, 8048 and 9036

---
 src/OSEGD.cpp | 111 ++++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 58 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c216067..ccb99fa 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -39,11 +39,17 @@ public:
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
         : common { move(com) }
+        , group_pos { 0 }
     {
     }
     CommonSEGD common;
 
 private:
+    // samples of the current group of four for format 8015
+    double group[4];
+    int group_pos;
+    static uint32_t pack_float(double val, int base_bits, int exp_bits,
+        int frac_bits);
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, int8_t)> write_i8;
@@ -1065,7 +1071,9 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
-    if (common.trc_samp_buf.size() != trc.samples().size() *
+    if (common.general_header.format_code == 8015)
+        common.trc_samp_buf.resize((trc.samples().size() + 3) / 4 * 10);
+    else if (common.trc_samp_buf.size() != trc.samples().size() *
 	   	common.bits_per_sample / 8)
         common.trc_samp_buf.resize(trc.samples().size() *
 								   common.bits_per_sample / 8);
@@ -1088,59 +1096,65 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     descale = pow(2, descale);
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
+    // incomplete group is padded with zeros
+    while (group_pos)
+        write_sample(&buf, 0);
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
+// sign, exponent of base which is power of two and fraction of the value,
+// fraction is less than one and has as much significant bits as possible
+uint32_t OSEGD::Impl::pack_float(double val, int base_bits, int exp_bits,
+    int frac_bits)
+{
+    uint32_t sign = val < 0 ? 1 : 0;
+    double abs_val = abs(val);
+    uint32_t max_exp = (1u << exp_bits) - 1, exp = 0;
+    while (exp < max_exp && abs_val >= std::ldexp(1, exp * base_bits))
+        ++exp;
+    double frac = std::ldexp(abs_val, frac_bits -
+        static_cast<int>(exp) * base_bits);
+    uint32_t max_frac = (1u << frac_bits) - 1;
+    return sign << (exp_bits + frac_bits) | exp << frac_bits |
+        (frac < max_frac ? static_cast<uint32_t>(frac) : max_frac);
+}
+
 void OSEGD::Impl::assign_sample_writers()
 {
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
+            // samples are stored in groups of four
+            group[group_pos++] = val;
+            if (group_pos == 4) {
+                group_pos = 0;
+                uint8_t exp[4];
+                int16_t frac[4];
                 for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
+                    uint32_t bits = pack_float(group[i], 1, 4, 15);
+                    exp[i] = bits >> 15 & 0xf;
+                    frac[i] = bits & 0x7fff;
+                    if (bits >> 19)
+                        frac[i] = -frac[i];
                 }
+                for (int i = 0; i < 4; i += 2)
+                    write_u8(buf, exp[i] << 4 | exp[i + 1]);
                 for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                    write_i16(buf, frac[i]);
             }
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            write_u8(buf, pack_float(val, 2, 3, 4));
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            write_u16(buf, pack_float(val, 2, 3, 12));
         };
         break;
     case 8036:
@@ -1153,39 +1167,19 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+        write_sample = [this](char** buf, double val) {
+            write_u8(buf, pack_float(val, 4, 2, 5));
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
-            write_u16(buf, sign << 15 | exp << 13 | frac);
+            write_u16(buf, pack_float(val, 4, 2, 13));
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
-        };
+        write_sample = write_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
@@ -1211,8 +1205,9 @@ void OSEGD::Impl::assign_sample_writers()
 		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = val;
+                write<int16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
-- 
2.43.0


From f284039bdd7d044a199c698920f6091f4417b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:24 +0000
Subject: [PATCH 36/61] fix: number of channels in SEG-D record was counted
 from an uninitialised value

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index ccb99fa..8b9e0de 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -25,7 +25,7 @@ using std::vector;
 namespace sedaman {
 class OSEGD::Impl {
 public:
-    uint64_t chans_in_record;
+    uint64_t chans_in_record { 0 };
     void assign_raw_writers();
     void assign_sample_writers();
     void write_general_header1();
-- 
2.43.0


From 1f8433661183965eb7fc762d19ca4ff0766ffbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:24 +0000
Subject: [PATCH 37/61] fix: SEG-D trace header extension was written to a
 buffer too small for it, and past its maps

---
 src/OSEGD.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 8b9e0de..250213e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -935,15 +935,15 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
-        if (common.trace_header_extension.size()) {
+        if (static_cast<size_t>(i) < common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -986,8 +986,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     break;
                 }
             }
-        } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+        } else if (i == 0 && common.trace_header_extension.empty()) {
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1064,7 +1064,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From f310646591d523424b64360329a2a08bfe934d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:23 +0000
Subject: [PATCH 38/61] fix: SEG-D writer refused trace header values of the
 other kind

---
 src/OSEGD.cpp | 91 +++++++++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 250213e..aad6f9c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -23,6 +23,17 @@ using std::shared_ptr;
 using std::vector;
 
 namespace sedaman {
+// trace header value converted to the type of field, zero if it is absent
+template <typename T>
+static T as(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    if (holds_alternative<double>(*v))
+        return static_cast<T>(get<double>(*v));
+    return static_cast<T>(get<int64_t>(*v));
+}
+
 class OSEGD::Impl {
 public:
     uint64_t chans_in_record { 0 };
@@ -899,40 +910,40 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     char* buf = common.trc_hdr_buf;
     memset(buf, 0, CommonSEGD::TRACE_HEADER_SIZE);
     optional<Trace::Header::Value> ffid = hdr.get("FFID");
-    if (ffid && get<int64_t>(*ffid) > 9999)
+    if (as<int64_t>(ffid) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
+        to_bcd(&buf, as<int64_t>(ffid), false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
+    to_bcd(&buf, as<int64_t>(tmp), false, 2);
     optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
     if (ch_set && get<int64_t>(*ch_set) > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
         to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
     tmp = hdr.get("CHAN");
-    if (tmp && get<int64_t>(*tmp) > 9999)
+    if (as<int64_t>(tmp) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 4);
+        to_bcd(&buf, as<int64_t>(tmp), false, 4);
     tmp = hdr.get("FIRST_TIMING_WORD");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, as<double>(tmp) * pow(2, 8));
     tmp = hdr.get("TR_HDR_EXT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = as<int64_t>(tmp);
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = static_cast<uint8_t>(as<double>(tmp) * pow(2, 8));
     tmp = hdr.get("TRACE_EDIT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = as<int64_t>(tmp);
     tmp = hdr.get("TIME_BREAK_WIN");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, as<double>(tmp) * pow(2, 8));
     write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
-    write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
+    write_u24(&buf, as<int64_t>(ffid));
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
 
 void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 {
-    uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
+    uint8_t ext_hdr_blks = as<int64_t>(hdr.get("TR_HDR_EXT"));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
         std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
@@ -946,43 +957,43 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
-                    write_i8(&pos, get<int64_t>(*tmp));
+                    write_i8(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::uint8_t:
-                    write_u8(&pos, get<int64_t>(*tmp));
+                    write_u8(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::int16_t:
-                    write_i16(&pos, get<int64_t>(*tmp));
+                    write_i16(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::uint16_t:
-                    write_u16(&pos, get<int64_t>(*tmp));
+                    write_u16(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::int24_t:
-                    write_i24(&pos, get<int64_t>(*tmp));
+                    write_i24(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::uint24_t:
-                    write_u24(&pos, get<int64_t>(*tmp));
+                    write_u24(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::int32_t:
-                    write_i32(&pos, get<int64_t>(*tmp));
+                    write_i32(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::uint32_t:
-                    write_u32(&pos, get<int64_t>(*tmp));
+                    write_u32(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::int64_t:
-                    write_i64(&pos, get<int64_t>(*tmp));
+                    write_i64(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    write_u64(&pos, get<int64_t>(*tmp));
+                    write_u64(&pos, as<int64_t>(tmp));
                     break;
                 case Trace::Header::ValueType::ibm:
-                    write_ibm_float(&pos, get<double>(*tmp));
+                    write_ibm_float(&pos, as<double>(tmp));
                     break;
                 case Trace::Header::ValueType::ieee_single:
-                    write_IEEE_float(&pos, get<double>(*tmp));
+                    write_IEEE_float(&pos, as<double>(tmp));
                     break;
                 case Trace::Header::ValueType::ieee_double:
-                    write_IEEE_double(&pos, get<double>(*tmp));
+                    write_IEEE_double(&pos, as<double>(tmp));
                     break;
                 }
             }
@@ -995,7 +1006,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 r_line = tmp ? get<double>(*tmp) : 0;
                 r_line_int = r_line;
             } else {
-                r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_line_int = as<int64_t>(tmp);
                 r_line = r_line_int;
             }
             write_u24(&buf, r_line);
@@ -1006,22 +1017,22 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 r_point = tmp ? get<double>(*tmp) : 0;
                 r_point_int = r_point;
             } else {
-                r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_point_int = as<int64_t>(tmp);
                 r_point = r_point_int;
             }
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
-            *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+            *buf++ = as<int64_t>(tmp);
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("SAMP_NUM");
-                write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u24(&buf, as<int64_t>(tmp));
             } else {
                 tmp = hdr.get("RESHOOT_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
                 tmp = hdr.get("GROUP_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
                 tmp = hdr.get("DEPTH_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
             }
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("R_LINE");
@@ -1031,7 +1042,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     r_line = tmp ? get<double>(*tmp) : 0;
                     r_line_int = r_line;
                 } else {
-                    r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_line_int = as<int64_t>(tmp);
                     r_line = r_line_int;
                 }
                 write_u24(&buf, r_line_int);
@@ -1043,25 +1054,25 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     r_point = tmp ? get<double>(*tmp) : 0;
                     r_point_int = r_point;
                 } else {
-                    r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_point_int = as<int64_t>(tmp);
                     r_point = r_point_int;
                 }
                 write_u24(&buf, r_point_int);
                 write_u16(&buf, (r_point - r_point_int) * pow(2, 16));
                 tmp = hdr.get("SENSOR_TYPE");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
             }
             if (common.general_header2.segd_rev_major > 2) {
                 tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && get<int64_t>(*tmp) > 9999)
-                    write_u24(&buf, get<int64_t>(*tmp));
+                if (as<int64_t>(tmp) > 9999)
+                    write_u24(&buf, as<int64_t>(tmp));
                 tmp = hdr.get("SAMP_NUM");
-                write_u32(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u32(&buf, as<int64_t>(tmp));
                 tmp = hdr.get("SENSOR_MOVING");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
                 ++buf;
                 tmp = hdr.get("PHYSICAL_UNIT");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = as<int64_t>(tmp);
             }
         }
         common.file.write(common.trc_ext_hdr_buf,
-- 
2.43.0


From b1317ae40296ab2164095c02bbea1a4df3a42801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:23 +0000
Subject: [PATCH 39/61] fix: SEG-D trace without channel set number
 dereferenced a missing value

---
 src/OSEGD.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index aad6f9c..953e301 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -915,12 +915,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, as<int64_t>(ffid), false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, as<int64_t>(tmp), false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    to_bcd(&buf, tmp ? as<int64_t>(tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? as<int64_t>(tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (as<int64_t>(tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -936,7 +937,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = as<int64_t>(tmp);
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, as<double>(tmp) * pow(2, 8));
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, as<int64_t>(ffid));
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
@@ -1095,13 +1096,13 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     if (tmp == std::nullopt)
         scan_type = 1;
     else
-        scan_type = get<int64_t>(*tmp);
+        scan_type = as<int64_t>(tmp);
     uint16_t ch_set;
     tmp = trc.header_const().get("CH_SET_NUM");
     if (tmp == std::nullopt)
         ch_set = 1;
     else
-        ch_set = get<int64_t>(*tmp);
+        ch_set = as<int64_t>(tmp);
     double descale = common.channel_sets[scan_type - 1][ch_set - 1]
     .descale_multiplier;
     descale = pow(2, descale);
-- 
2.43.0


From 95becff5794d44790a702db1c2684e56b8feaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:23 +0000
Subject: [PATCH 40/61] fix: number of samples in trace header extension of
 SEG-D before rev 2, fractions of receiver line and point below zero

---
 src/OSEGD.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 953e301..adca730 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1005,26 +1005,26 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             int64_t r_line_int;
             if (tmp && holds_alternative<double>(*tmp)) {
                 r_line = tmp ? get<double>(*tmp) : 0;
-                r_line_int = r_line;
+                r_line_int = std::floor(r_line);
             } else {
                 r_line_int = as<int64_t>(tmp);
                 r_line = r_line_int;
             }
-            write_u24(&buf, r_line);
+            write_u24(&buf, r_line_int);
             tmp = hdr.get("R_POINT");
             double r_point;
             int64_t r_point_int;
             if (tmp && holds_alternative<double>(*tmp)) {
                 r_point = tmp ? get<double>(*tmp) : 0;
-                r_point_int = r_point;
+                r_point_int = std::floor(r_point);
             } else {
                 r_point_int = as<int64_t>(tmp);
                 r_point = r_point_int;
             }
-            write_u24(&buf, r_point);
+            write_u24(&buf, r_point_int);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = as<int64_t>(tmp);
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, as<int64_t>(tmp));
             } else {
@@ -1041,7 +1041,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 int64_t r_line_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
                     r_line = tmp ? get<double>(*tmp) : 0;
-                    r_line_int = r_line;
+                    r_line_int = std::floor(r_line);
                 } else {
                     r_line_int = as<int64_t>(tmp);
                     r_line = r_line_int;
@@ -1053,7 +1053,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 int64_t r_point_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
                     r_point = tmp ? get<double>(*tmp) : 0;
-                    r_point_int = r_point;
+                    r_point_int = std::floor(r_point);
                 } else {
                     r_point_int = as<int64_t>(tmp);
                     r_point = r_point_int;
-- 
2.43.0


From 3789e41cde4b92d8141976c299d0cecc68da8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:23 +0000
Subject: [PATCH 41/61] fix: source line and point numbers below zero in SEG-D
 general headers

---
 src/OSEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index adca730..67988c2 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -283,11 +283,11 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        int32_t integer = std::floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = std::floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From cba85b35f7ba61f2543ccb14dc3e01cd929e1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:23 +0000
Subject: [PATCH 42/61] fix: negative descale multiplier of SEG-D channel sets

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 67988c2..1ac5c81 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -850,7 +850,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-- 
2.43.0


From 450e63f36164b747773bd11ffbf8dd363adb191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:46 +0000
Subject: [PATCH 43/61] fix: scans per block, base scan interval and subscans
 of SEG-D headers

---
 src/OSEGD.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1ac5c81..b695095 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -221,12 +221,17 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
+    *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
+        pow(2, 4));
     to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
+    int exp = 0;
+    long scans = common.general_header.scans_per_block;
+    while (scans > 255 && exp < 15) {
+        scans /= 2;
+        ++exp;
+    }
     *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    *ptr++ = static_cast<uint8_t>(scans);
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
@@ -856,7 +861,8 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         to_bcd(&buf, hdr.number_of_channels, false, 4);
         to_bcd(&buf, hdr.channel_type, false, 1);
         ++buf;
-        to_bcd(&buf, log2(hdr.subscans_per_ch_set), false, 1);
+        to_bcd(&buf, hdr.subscans_per_ch_set > 1 ?
+            static_cast<int>(log2(hdr.subscans_per_ch_set)) : 0, false, 1);
         to_bcd(&buf, hdr.channel_gain, true, 1);
         to_bcd(&buf, hdr.alias_filter_freq, false, 4);
         to_bcd(&buf, hdr.alias_filter_slope, false, 4);
-- 
2.43.0


From 76d04728a6d960e56f696d6d2cb4451158fc66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:11 +0000
Subject: [PATCH 44/61] fix: extended header flag of SEG-D channel sets above 7
 was sign extended

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 426e897..52b5241 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1116,7 +1116,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1134,7 +1134,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 136e79c7d14c64ed654dc7af15cf2ba081fad602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:11 +0000
Subject: [PATCH 45/61] fix: general header blocks of SEG-D before rev 3 were
 taken for blocks of rev 3

---
 src/CommonSEGD.cpp |  6 ++++
 src/ISEGD.cpp      | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 83c2091..6fdb23c 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -42,6 +42,12 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        // number of block may coincide with some type of rev 3
+        if (GeneralHeaderN* ghn = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[ghn->type()] =
+                make_unique<GeneralHeaderN>(*ghn);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 52b5241..d6d021e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1464,7 +1464,8 @@ optional<CommonSEGD::GeneralHeaderVes> ISEGD::general_header_vessel_crew_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::VESSEL_CREW_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderVes>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderVes*>(it->second.get())) :
 	   	nullopt;
@@ -1475,7 +1476,8 @@ optional<CommonSEGD::GeneralHeaderSur> ISEGD::general_header_survey_name()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SURVEY_AREA_NAME);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSur>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSur*>(it->second.get())) :
 	   	nullopt;
@@ -1486,7 +1488,8 @@ optional<CommonSEGD::GeneralHeaderCli> ISEGD::general_header_client_name()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::CLIENT_NAME);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderCli>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderCli*>(it->second.get())) :
 	   	nullopt;
@@ -1497,7 +1500,8 @@ optional<CommonSEGD::GeneralHeaderJob> ISEGD::general_header_job_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::JOB_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderJob>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderJob*>(it->second.get())) :
 	   	nullopt;
@@ -1508,7 +1512,8 @@ optional<CommonSEGD::GeneralHeaderLin> ISEGD::general_header_line_id()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::LINE_ID);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderLin>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderLin*>(it->second.get())) :
 	   	nullopt;
@@ -1519,7 +1524,8 @@ optional<CommonSEGD::GeneralHeaderVib> ISEGD::general_header_vibrator_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderVib>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderVib*>(it->second.get())) :
 	   	nullopt;
@@ -1530,7 +1536,8 @@ optional<CommonSEGD::GeneralHeaderExp> ISEGD::general_header_explosive_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderExp>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderExp*>(it->second.get())) :
 	   	nullopt;
@@ -1541,7 +1548,8 @@ optional<CommonSEGD::GeneralHeaderAir> ISEGD::general_header_airgun_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::AIRGUN_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderAir>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderAir*>(it->second.get())) :
 	   	nullopt;
@@ -1552,7 +1560,8 @@ optional<CommonSEGD::GeneralHeaderWat> ISEGD::general_header_watergun_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::WATERGUN_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderWat>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderWat*>(it->second.get())) :
 	   	nullopt;
@@ -1564,7 +1573,8 @@ ISEGD::general_header_electromagnetic_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderEle>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderEle*>(it->second.get())) :
 	   	nullopt;
@@ -1576,7 +1586,8 @@ ISEGD::general_header_other_source_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderOth>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderOth*>(it->second.get())) :
 	   	nullopt;
@@ -1587,7 +1598,8 @@ optional<CommonSEGD::GeneralHeaderAdd> ISEGD::general_header_add_source_info()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ADD_SOURCE_INFO);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderAdd>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderAdd*>(it->second.get())) :
 	   	nullopt;
@@ -1599,7 +1611,8 @@ ISEGD::general_header_sou_aux_chan_ref()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SOU_AUX_CHAN_REF);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSaux>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSaux*>(it->second.get())) :
 	   	nullopt;
@@ -1611,7 +1624,8 @@ ISEGD::general_header_sen_info_hdr_ext_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSen>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSen*>(it->second.get())) :
 	   	nullopt;
@@ -1621,7 +1635,8 @@ optional<CommonSEGD::GeneralHeaderSCa> ISEGD::general_header_sen_calib_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderSCa>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderSCa*>(it->second.get())) :
 	   	nullopt;
@@ -1632,7 +1647,8 @@ optional<CommonSEGD::GeneralHeaderTim> ISEGD::general_header_time_drift_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::TIME_DRIFT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderTim>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderTim*>(it->second.get())) :
 	   	nullopt;
@@ -1645,7 +1661,8 @@ ISEGD::general_header_elemag_src_rec_desc_blk()
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::
 				ELECTROMAG_SRC_REC_DESC_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderElSR>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderElSR*>(it->second.get())) :
 	   	nullopt;
@@ -1656,7 +1673,8 @@ optional<CommonSEGD::GeneralHeaderPos1> ISEGD::general_header_position_blk_1()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK1);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos1>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos1*>(it->second.get())) :
 	   	nullopt;
@@ -1667,7 +1685,8 @@ optional<CommonSEGD::GeneralHeaderPos2> ISEGD::general_header_position_blk_2()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK2);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos2>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos2*>(it->second.get())) :
 	   	nullopt;
@@ -1678,7 +1697,8 @@ optional<CommonSEGD::GeneralHeaderPos3> ISEGD::general_header_position_blk_3()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::POSITION_BLK3);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderPos3>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderPos3*>(it->second.get())) :
 	   	nullopt;
@@ -1689,7 +1709,8 @@ optional<CommonSEGD::GeneralHeaderCoord> ISEGD::general_header_coord_ref_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::COORD_REF_SYSTEM);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderCoord>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderCoord*>(it->second.get())) :
 	   	nullopt;
@@ -1700,7 +1721,8 @@ optional<CommonSEGD::GeneralHeaderRel> ISEGD::general_header_relative_pos_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::RELATIVE_POS_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderRel>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderRel*>(it->second.get())) :
 	   	nullopt;
@@ -1711,7 +1733,8 @@ optional<CommonSEGD::GeneralHeaderOri> ISEGD::general_header_orient_hdr_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::ORIENT_HDR_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderOri>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderOri*>(it->second.get())) :
 	   	nullopt;
@@ -1722,7 +1745,8 @@ optional<CommonSEGD::GeneralHeaderMeas> ISEGD::general_header_measurement_blk()
     map<int, unique_ptr<CommonSEGD::AdditionalGeneralHeader>>::iterator it =
 		   	pimpl->common.add_gen_hdr_blks_map.find(
 				CommonSEGD::AdditionalGeneralHeader::MEASUREMENT_BLK);
-    return it != pimpl->common.add_gen_hdr_blks_map.end() ?
+    return it != pimpl->common.add_gen_hdr_blks_map.end() &&
+        pimpl->common.general_header2.segd_rev_major > 2 ?
 	   	optional<CommonSEGD::GeneralHeaderMeas>(
 			*dynamic_cast<CommonSEGD::GeneralHeaderMeas*>(it->second.get())) :
 	   	nullopt;
-- 
2.43.0


From 5891cd2a35f659cd7857c2893b230e57d6c85b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:11 +0000
Subject: [PATCH 46/61] fix: SEG-D headers that contradict each other were
 written or read out of bounds

---
 src/OSEGDRev2_1.cpp | 63 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3c1acbd..3bda531 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -19,28 +19,75 @@ public:
 
 private:
     OSEGDRev2_1& sgd;
+    void check_headers();
 };
 
+// everything that can not be written is refused before the first byte
+void OSEGDRev2_1::Impl::check_headers()
+{
+    CommonSEGD::GeneralHeader const& gh = sgd.common().general_header;
+    CommonSEGD::GeneralHeader2 const& gh2 = sgd.common().general_header2;
+    if (gh2.segd_rev_major > 2)
+        throw Exception(__FILE__, __LINE__,
+                        "Revision in general header 2 is greater than 2.");
+    for (auto& block : sgd.common().add_gen_hdr_blks_map)
+        if (!dynamic_cast<CommonSEGD::GeneralHeaderN*>(block.second.get()))
+            throw Exception(__FILE__, __LINE__,
+                            "General header block of revision 3.");
+    if (gh.add_gen_hdr_blocks > 15 ||
+        static_cast<size_t>(gh.add_gen_hdr_blocks) !=
+        sgd.common().add_gen_hdr_blks_map.size() + 1)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of additional general header blocks not equal "
+                        "to number of blocks in general header.");
+    if (gh.scan_types_per_record > 99 || gh.skew_blocks > 99)
+        throw Exception(__FILE__, __LINE__,
+                        "Too many scan types or skew blocks.");
+    uint16_t ch_sets_per_scan_type_num = gh.channel_sets_per_scan_type > 99 ?
+        gh2.ext_ch_sets_per_scan_type : gh.channel_sets_per_scan_type;
+    for (vector<CommonSEGD::ChannelSetHeader>& sets :
+         sgd.common().channel_sets) {
+        if (sets.size() != ch_sets_per_scan_type_num)
+            throw Exception(__FILE__, __LINE__,
+                            "Size of vector with channel sets not equal to "
+                            "number of channel sets in general header.");
+        for (CommonSEGD::ChannelSetHeader& hdr : sets)
+            if (hdr.number_of_channels > 9999)
+                throw Exception(__FILE__, __LINE__,
+                                "Too many channels in channel set.");
+    }
+    size_t extended_blocks = gh.extended_hdr_blocks > 99 ?
+        gh2.extended_hdr_blocks : gh.extended_hdr_blocks;
+    size_t external_blocks = gh.external_hdr_blocks > 99 ?
+        gh2.external_hdr_blocks : gh.external_hdr_blocks;
+    if (sgd.common().extended_headers.size() != extended_blocks ||
+        sgd.common().external_headers.size() != external_blocks)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of extended or external headers not equal to "
+                        "number in general header.");
+    for (vector<char>& hdr : sgd.common().extended_headers)
+        if (hdr.size() != CommonSEGD::EXTENDED_HEADER_SIZE)
+            throw Exception(__FILE__, __LINE__,
+                            "Wrong size of extended header.");
+    for (vector<char>& hdr : sgd.common().external_headers)
+        if (hdr.size() != CommonSEGD::EXTERNAL_HEADER_SIZE)
+            throw Exception(__FILE__, __LINE__,
+                            "Wrong size of external header.");
+}
+
 OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
+    check_headers();
     sgd.write_general_header1();
     sgd.write_general_header2_rev2();
     sgd.write_rev2_add_gen_hdrs();
     sgd.common().ch_set_hdr_buf.resize(CommonSEGD::CH_SET_HDR_SIZE);
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
-        uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type > 99 ?
-		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
-		   	sgd.common().general_header.channel_sets_per_scan_type;
-        if (sets.size() != ch_sets_per_scan_type_num)
-            throw Exception(__FILE__, __LINE__,
-							"Size of vector with channel sets not equal to "
-							"number of channel sets in general header.");
         for (CommonSEGD::ChannelSetHeader& hdr : sets) {
             sgd.write_ch_set_hdr(hdr);
         }
-- 
2.43.0


From 59c9ef8b3916c60077caf35dc0fd1f6693dfb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:43 +0000
Subject: [PATCH 47/61] fix: SEG-D trace that can not be read back was written,
 partly before being refused

---
 include/OSEGD.hpp   |  1 +
 src/OSEGD.cpp       | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/OSEGDRev2_1.cpp |  1 +
 3 files changed, 46 insertions(+)

diff --git a/include/OSEGD.hpp b/include/OSEGD.hpp
index 4bd7b49..d15020a 100644
--- a/include/OSEGD.hpp
+++ b/include/OSEGD.hpp
@@ -71,6 +71,7 @@ protected:
     void write_general_header2_and_3();
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
+    void check_trace(Trace const& trc);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b695095..5c07caa 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -45,6 +45,7 @@ public:
     void write_general_header2_and_3();
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
+    void check_trace(Trace const& trc);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
@@ -911,6 +912,48 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 					  common.ch_set_hdr_buf.size());
 }
 
+// trace that can not be read back is refused before its first byte
+void OSEGD::Impl::check_trace(Trace const& trc)
+{
+    Trace::Header const& hdr = trc.header_const();
+    optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
+    int64_t scan_type = tmp ? as<int64_t>(tmp) : 1;
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? as<int64_t>(tmp) : 1;
+    if (scan_type < 1 || ch_set < 1 || static_cast<size_t>(scan_type) >
+        common.channel_sets.size() || static_cast<size_t>(ch_set) >
+        common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to channel set that does not exist");
+    int64_t ext_hdr_blks = as<int64_t>(hdr.get("TR_HDR_EXT"));
+    if (ext_hdr_blks < 0 || ext_hdr_blks > 255)
+        throw Exception(__FILE__, __LINE__,
+            "wrong number of trace header extensions");
+    bool samp_num_in_ext = ext_hdr_blks &&
+        common.trace_header_extension.empty();
+    for (size_t i = 0; i < common.trace_header_extension.size() &&
+        i < static_cast<size_t>(ext_hdr_blks); ++i)
+        for (auto& item : common.trace_header_extension[i]) {
+            if (!hdr.get(item.second.first))
+                throw Exception(__FILE__, __LINE__, "no such header in trace");
+            if (item.second.first == "SAMP_NUM")
+                samp_num_in_ext = true;
+        }
+    CommonSEGD::ChannelSetHeader& set =
+        common.channel_sets[scan_type - 1][ch_set - 1];
+    double samp_num = -1;
+    if (samp_num_in_ext)
+        samp_num = as<double>(hdr.get("SAMP_NUM"));
+    else if (common.general_header.base_scan_int > 0 &&
+        set.channel_set_end_time >= set.channel_set_start_time)
+        samp_num = std::floor((set.channel_set_end_time / 2 * 2 -
+            set.channel_set_start_time / 2 * 2) /
+            common.general_header.base_scan_int * set.subscans_per_ch_set);
+    if (samp_num != trc.samples().size())
+        throw Exception(__FILE__, __LINE__,
+            "number of samples differs from number in headers");
+}
+
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
 {
     char* buf = common.trc_hdr_buf;
@@ -1287,6 +1330,7 @@ void OSEGD::write_general_header2_and_3()
 void OSEGD::write_rev3_add_gen_hdrs() { pimpl->write_rev3_add_gen_hdrs(); }
 void OSEGD::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 { pimpl->write_ch_set_hdr(hdr); }
+void OSEGD::check_trace(Trace const& trc) { pimpl->check_trace(trc); }
 void OSEGD::write_trace_header(Trace::Header const& hdr)
 { pimpl->write_trace_header(hdr); }
 void OSEGD::write_ext_trace_headers(Trace::Header const& hdr)
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3bda531..835568c 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -121,6 +121,7 @@ void OSEGDRev2_1::write_trace(Trace& t)
 		throw Exception(__FILE__, __LINE__,
 						"you tring write more traces than specified "
 						"in channel set headers");
+    check_trace(t);
     write_trace_header(t.header());
     write_ext_trace_headers(t.header());
     write_trace_samples(t);
-- 
2.43.0


From 514d1167ecdc939fa655d30bb273cd2655756f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:02 +0000
Subject: [PATCH 48/61] fix: SEG-D writer did not check trace header extension
 maps

---
 include/CommonSEGD.hpp |  1 +
 src/CommonSEGD.cpp     | 69 ++++++++++++++++++++++++++++++++++++++++
 src/ISEGD.cpp          | 71 +-----------------------------------------
 src/OSEGDRev2_1.cpp    |  1 +
 4 files changed, 72 insertions(+), 70 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..5ba4b39 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1547,6 +1547,7 @@ public:
         std::vector<std::vector<char>> external_headers = {},
         std::vector<std::map<uint32_t, std::pair<std::string,
         Trace::Header::ValueType>>> trc_hdr_ext = {});
+    void check_trc_hdr_ext() const;
     std::string file_name;
     std::fstream file;
     char gen_hdr_buf[CommonSEGD::GEN_HDR_SIZE];
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 6fdb23c..8ff7335 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -14,6 +14,7 @@ using std::optional;
 using std::pair;
 using std::string;
 using std::shared_ptr;
+using std::to_string;
 using std::unique_ptr;
 using std::vector;
 
@@ -186,6 +187,74 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     }
 }
 
+void CommonSEGD::check_trc_hdr_ext() const
+{
+    if (trace_header_extension.size()) {
+        int size = 0;
+        for (auto& hdr_map : trace_header_extension) {
+            // end of previous field
+            uint64_t prev = 0;
+            for (auto& i : hdr_map) {
+                switch (i.second.second) {
+                case Trace::Header::ValueType::int8_t:
+                    size = 1;
+                    break;
+                case Trace::Header::ValueType::uint8_t:
+                    size = 1;
+                    break;
+                case Trace::Header::ValueType::int16_t:
+                    size = 2;
+                    break;
+                case Trace::Header::ValueType::uint16_t:
+                    size = 2;
+                    break;
+                case Trace::Header::ValueType::int24_t:
+                    size = 3;
+                    break;
+                case Trace::Header::ValueType::uint24_t:
+                    size = 3;
+                    break;
+                case Trace::Header::ValueType::int32_t:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::uint32_t:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::int64_t:
+                    size = 8;
+                    break;
+                case Trace::Header::ValueType::uint64_t:
+                    size = 8;
+                    break;
+                case Trace::Header::ValueType::ibm:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::ieee_single:
+                    size = 4;
+                    break;
+                case Trace::Header::ValueType::ieee_double:
+                    size = 8;
+                    break;
+                default:
+                    throw Exception(__FILE__, __LINE__,
+                        "impossible, unexpected type in "
+                        "TrHdrValueType");
+                }
+                if (i.first < prev)
+                    throw Exception(__FILE__, __LINE__,
+                        string("overlapping type/offset in "
+                               "trace headers extension map: ")
+                            + to_string(i.first));
+                prev = static_cast<uint64_t>(i.first) + size;
+                if (prev > CommonSEGD::TRACE_HEADER_EXT_SIZE)
+                    throw Exception(__FILE__, __LINE__,
+                        string("trace header extension map will write over "
+                        "buffer bound"));
+            }
+        }
+    }
+}
+
 CommonSEGD::ChannelSetHeader::ChannelSetHeader(int stn, uint16_t chsn,
 	uint8_t cht, uint32_t chsstm, uint32_t chsetm, double dm, uint32_t noch,
    	int spchs, uint8_t chg, uint32_t aff, uint32_t afs, uint32_t lcff,
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d6d021e..fe76a87 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -52,7 +52,6 @@ private:
     CommonSEGD::ChannelSetHeader read_ch_set_hdr();
     void fill_buf_from_file(char* buf, streamsize n);
     void file_skip_bytes(streamoff off);
-    void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
     // samples of the current group of four for format 8015
     double group[4];
@@ -166,7 +165,7 @@ ISEGD::Impl::Impl(CommonSEGD com)
     common.file.seekg(0, ios_base::beg);
     curr_pos = common.file.tellg();
     assign_raw_readers();
-    check_trc_hdr_ext();
+    common.check_trc_hdr_ext();
     read_headers_before_traces();
 }
 
@@ -1174,74 +1173,6 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         filter_phase, physical_unit, filter_delay, description);
 }
 
-void ISEGD::Impl::check_trc_hdr_ext()
-{
-    if (common.trace_header_extension.size()) {
-        int size = 0;
-        for (auto& hdr_map : common.trace_header_extension) {
-            // end of previous field
-            uint64_t prev = 0;
-            for (auto& i : hdr_map) {
-                switch (i.second.second) {
-                case Trace::Header::ValueType::int8_t:
-                    size = 1;
-                    break;
-                case Trace::Header::ValueType::uint8_t:
-                    size = 1;
-                    break;
-                case Trace::Header::ValueType::int16_t:
-                    size = 2;
-                    break;
-                case Trace::Header::ValueType::uint16_t:
-                    size = 2;
-                    break;
-                case Trace::Header::ValueType::int24_t:
-                    size = 3;
-                    break;
-                case Trace::Header::ValueType::uint24_t:
-                    size = 3;
-                    break;
-                case Trace::Header::ValueType::int32_t:
-                    size = 4;
-                    break;
-                case Trace::Header::ValueType::uint32_t:
-                    size = 4;
-                    break;
-                case Trace::Header::ValueType::int64_t:
-                    size = 8;
-                    break;
-                case Trace::Header::ValueType::uint64_t:
-                    size = 8;
-                    break;
-                case Trace::Header::ValueType::ibm:
-                    size = 4;
-                    break;
-                case Trace::Header::ValueType::ieee_single:
-                    size = 4;
-                    break;
-                case Trace::Header::ValueType::ieee_double:
-                    size = 8;
-                    break;
-                default:
-                    throw Exception(__FILE__, __LINE__,
-                        "impossible, unexpected type in "
-                        "TrHdrValueType");
-                }
-                if (i.first < prev)
-                    throw Exception(__FILE__, __LINE__,
-                        string("overlapping type/offset in "
-                               "trace headers extension map: ")
-                            + to_string(i.first));
-                prev = static_cast<uint64_t>(i.first) + size;
-                if (prev > CommonSEGD::TRACE_HEADER_EXT_SIZE)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header extension map will write over "
-                        "buffer bound"));
-            }
-        }
-    }
-}
-
 unordered_map<string, Trace::Header::Value> ISEGD::Impl::read_trace_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 835568c..4a7466c 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,7 @@ private:
 // everything that can not be written is refused before the first byte
 void OSEGDRev2_1::Impl::check_headers()
 {
+    sgd.common().check_trc_hdr_ext();
     CommonSEGD::GeneralHeader const& gh = sgd.common().general_header;
     CommonSEGD::GeneralHeader2 const& gh2 = sgd.common().general_header2;
     if (gh2.segd_rev_major > 2)
-- 
2.43.0


From 05e2306fdcff679cea81de18ae057f847556f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:57 +0000
Subject: [PATCH 49/61] fix: offsets and size in SEG-D source blocks are 16
 bits wide

---
 src/ISEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index fe76a87..84ca754 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -594,10 +594,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -620,10 +620,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -645,10 +645,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -670,10 +670,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -695,10 +695,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -719,10 +719,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From 079c76ba9e7ea4196ccfc259800d77c55c327a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:57 +0000
Subject: [PATCH 50/61] fix: serial number in SEG-D sensor block was read past
 the end of block

---
 include/CommonSEGD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 5ba4b39..8c4210a 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
-- 
2.43.0


From a4e87c86b0db2c654dd0bb76b0ed458267cac94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:16 +0000
Subject: [PATCH 51/61] fix: error on closing of SEG-Y rev 2 file terminated
 the program

---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index bea3884..e9b0ed1 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -198,8 +198,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
-        write_trailer_stanzas();
+    // destructor can not report errors, and must not end the program
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (common().binary_header.num_of_trailer_stanza)
+            write_trailer_stanzas();
+    } catch (std::exception const&) {
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From 5edb18d7488cd3b6579a1d10a2df625ec600dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:20 +0000
Subject: [PATCH 52/61] fix: number of additional headers of SEG-Y rev 2 trace
 was ignored

Traces of variable length tell in the first additional header how many of
them they have.  Search of trailer stanzas used that number, reading and
writing of traces did not.
---
 src/ISEGY.cpp | 24 +++++++++++++++++-------
 src/OSEGY.cpp | 20 +++++++++++++++++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 3f24dfd..fab0738 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -388,8 +388,10 @@ void ISEGY::Impl::read_trailer_stanzas()
                     trc_samp_num = read_u32(&ptr);
                     ptr = trc_hdr_buf + 156;
                     uint16_t add_tr_hdr_num = read_u16(&ptr);
-                    add_tr_hdr_num = add_tr_hdr_num ? add_tr_hdr_num :
-					   	common.binary_header.max_num_add_tr_headers;
+                    if (!add_tr_hdr_num || add_tr_hdr_num >
+						common.binary_header.max_num_add_tr_headers)
+                        add_tr_hdr_num =
+						   	common.binary_header.max_num_add_tr_headers;
                     // skip addional headers
                     common.file.seekg((add_tr_hdr_num - 1) *
 									  CommonSEGY::TR_HEADER_SIZE,
@@ -456,13 +458,12 @@ void ISEGY::Impl::assign_bytes_per_sample()
 
 unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
-    if (end_of_data - common.file.tellg() < CommonSEGY::TR_HEADER_SIZE *
-	   	(1 + static_cast<streamoff>(
-			common.binary_header.max_num_add_tr_headers)))
-        throw Exception(__FILE__, __LINE__, "no more traces in file");
     unordered_map<string, Trace::Header::Value> hdr;
+	auto add_hdrs_num = common.binary_header.max_num_add_tr_headers;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
-		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
+		 i < add_hdrs_num + 1; ++i) {
+		if (end_of_data - common.file.tellg() < CommonSEGY::TR_HEADER_SIZE)
+			throw Exception(__FILE__, __LINE__, "no more traces in file");
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
 			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
@@ -513,6 +514,15 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 		} else {
 			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
 		}
+		// trace of variable length may have less headers than other traces
+		if (i == 1 && !common.binary_header.fixed_tr_length &&
+			common.binary_header.SEGY_rev_major_ver) {
+			auto num = hdr.find("ADD_TRC_HDR_NUM");
+			if (num != hdr.end() && std::holds_alternative<int64_t>(num->second) &&
+				get<int64_t>(num->second) > 0 &&
+				get<int64_t>(num->second) < add_hdrs_num)
+				add_hdrs_num = get<int64_t>(num->second);
+		}
 	}
     return hdr;
 }
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 6bcda5d..662493f 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -371,8 +371,26 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
+	auto add_hdrs_num = common.binary_header.max_num_add_tr_headers;
+	// trace of variable length may have less headers than other traces
+	if (!common.binary_header.fixed_tr_length) {
+		bool is_int = false;
+		for (decltype(common.tr_hdr_map.size()) i = 0;
+			 i < 2 && i < common.tr_hdr_map.size(); ++i)
+			for (auto& p : common.tr_hdr_map[i].second)
+				if (p.second.first == "ADD_TRC_HDR_NUM")
+					is_int = p.second.second !=
+						Trace::Header::ValueType::ibm &&
+						p.second.second !=
+						Trace::Header::ValueType::ieee_single &&
+						p.second.second !=
+						Trace::Header::ValueType::ieee_double;
+		int64_t num = is_int ? as<int64_t>(hdr.get("ADD_TRC_HDR_NUM")) : 0;
+		if (num > 0 && num < add_hdrs_num)
+			add_hdrs_num = num;
+	}
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= add_hdrs_num; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 9ee74321ff7b17a4babe582095f355a5c9dac81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:33 +0000
Subject: [PATCH 53/61] fix: names of SEG-D orientation header were read past
 the end of the table

---
 src/CommonSEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 8ff7335..bcc372c 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -811,6 +811,8 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
+    "Rot North",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From 6ba73b1e5210cf69910b263ee63b962ada71e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:33 +0000
Subject: [PATCH 54/61] fix: description of trace header HOUR was that of YEAR

---
 src/CommonSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 700d037..25fe499 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -398,7 +398,7 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
     { "YEAR", "Year data recorded." },
     { "DAY", "Day of year." },
-    { "HOUR", "Year data recorded." },
+    { "HOUR", "Hour of day." },
     { "MINUTE", "Minute of hour." },
     { "SECOND", "Second of minute." },
 	{ "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, "
-- 
2.43.0


From 13309319d20047a2d7c774165a5623343509f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:33 +0000
Subject: [PATCH 55/61] fix: trace headers of the default map without
 description

---
 src/CommonSEGY.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 25fe499..079c008 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -423,6 +423,9 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
 		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Mantissa of Transduction Constant. Transforms trace "
+		"samples to the Transduction Units" },
+	{ "TRANS_CONST_EXP", "Exponent of Transduction Constant, power of 10." },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -439,10 +442,15 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. In-line." },
 	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
 		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_MANT", "Mantissa of Source Measurement. Describes "
+		"the source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_EXP", "Exponent of Source Measurement, "
+		"power of 10." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
     { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
-- 
2.43.0


From 6c8b732d2280f66d7d45640435357da1fbdcd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:20 +0000
Subject: [PATCH 56/61] fix: SEG-D records without traces ended reading of the
 file

A record whose channel sets have no channels was never left: has_trace()
was false for it, and the traces of all records behind it were lost.
---
 src/ISEGD.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 84ca754..025768d 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -39,6 +39,7 @@ public:
         (unordered_map<string, Trace::Header::Value>& hdr);
     vector<double> read_trace_samples(unordered_map<string,
 									  Trace::Header::Value>& hdr);
+    void read_next_record();
     void read_headers_before_traces();
     void read_trailer();
     CommonSEGD common;
@@ -150,7 +151,7 @@ Trace ISEGD::read_trace()
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         if (has_record())
-            pimpl->read_headers_before_traces();
+            pimpl->read_next_record();
     }
     return Trace(move(hdr), move(samples));
 }
@@ -166,7 +167,20 @@ ISEGD::Impl::Impl(CommonSEGD com)
     curr_pos = common.file.tellg();
     assign_raw_readers();
     common.check_trc_hdr_ext();
+    read_next_record();
+}
+
+void ISEGD::Impl::read_next_record()
+{
     read_headers_before_traces();
+    // records without channels have no traces to be read
+    while (!chans_in_record) {
+        read_trailer();
+        if (streamoff(curr_pos) >= streamoff(end_of_data))
+            return;
+        common.channel_sets.clear();
+        read_headers_before_traces();
+    }
 }
 
 void ISEGD::Impl::read_headers_before_traces()
-- 
2.43.0


From fd7e3c62499fde171f26c02b59eb615df4b25714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 57/61] fix: OSEGY wrote traces whose number of samples does
 not fit into its header

A file with traces of variable length is read by the number of samples in
every trace header; when the map of headers has no place for the number the
trace and all following ones could not be read. Such traces are refused.
---
 src/OSEGY.cpp | 66 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 662493f..b5a9407 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -49,6 +49,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    int32_t additional_trace_headers_num(Trace::Header const& hdr);
+    int64_t stored_samp_num(Trace::Header const& hdr);
     void check_trace_samples_fix(Trace const& t);
     void check_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
@@ -368,9 +370,8 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
     common.file.write(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
 }
 
-void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
+int32_t OSEGY::Impl::additional_trace_headers_num(Trace::Header const& hdr)
 {
-    char* buf = common.hdr_buf;
 	auto add_hdrs_num = common.binary_header.max_num_add_tr_headers;
 	// trace of variable length may have less headers than other traces
 	if (!common.binary_header.fixed_tr_length) {
@@ -389,6 +390,61 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 		if (num > 0 && num < add_hdrs_num)
 			add_hdrs_num = num;
 	}
+	return add_hdrs_num;
+}
+
+// number of samples as it will be read back from the headers of trace,
+// negative if it can not be read
+int64_t OSEGY::Impl::stored_samp_num(Trace::Header const& hdr)
+{
+	size_t hdrs_num = 1;
+	if (common.binary_header.SEGY_rev_major_ver > 1)
+		hdrs_num += additional_trace_headers_num(hdr);
+	int64_t num = as<int64_t>(hdr.get("SAMP_NUM")), result = 0;
+	for (size_t i = 0; i < hdrs_num && i < common.tr_hdr_map.size(); ++i)
+		for (auto& p : common.tr_hdr_map[i].second) {
+			if (p.second.first != "SAMP_NUM")
+				continue;
+			switch (p.second.second) {
+				case Trace::Header::ValueType::int8_t:
+					result = num > INT8_MAX ? -1 : num;
+					break;
+				case Trace::Header::ValueType::uint8_t:
+					result = num > UINT8_MAX ? -1 : num;
+					break;
+				// reader unwraps signed 16 bit numbers
+				case Trace::Header::ValueType::int16_t:
+				case Trace::Header::ValueType::uint16_t:
+					result = num > UINT16_MAX ? -1 : num;
+					break;
+				case Trace::Header::ValueType::int24_t:
+					result = num > 0x7fffff ? -1 : num;
+					break;
+				case Trace::Header::ValueType::uint24_t:
+					result = num > 0xffffff ? -1 : num;
+					break;
+				case Trace::Header::ValueType::int32_t:
+					result = num > INT32_MAX ? -1 : num;
+					break;
+				case Trace::Header::ValueType::uint32_t:
+					result = num > UINT32_MAX ? -1 : num;
+					break;
+				case Trace::Header::ValueType::int64_t:
+				case Trace::Header::ValueType::uint64_t:
+					result = num;
+					break;
+				default:
+					result = -1;
+					break;
+			}
+		}
+	return result;
+}
+
+void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
+{
+    char* buf = common.hdr_buf;
+	auto add_hdrs_num = additional_trace_headers_num(hdr);
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
 		 i <= add_hdrs_num; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
@@ -481,6 +537,12 @@ void OSEGY::Impl::check_trace_samples_var(Trace const& t)
     if (get<int64_t>(v) != static_cast<int64_t>(t.samples().size()))
         throw Exception(__FILE__, __LINE__, "number of samples in trace is not "
 						"equal to the number in its header");
+    // next trace can be found only by the number of samples in this one
+    if (!common.binary_header.fixed_tr_length &&
+        common.binary_header.SEGY_rev_major_ver &&
+        stored_samp_num(t.header_const()) != get<int64_t>(v))
+        throw Exception(__FILE__, __LINE__, "number of samples can not be "
+						"stored in trace header");
 }
 
 void OSEGY::Impl::check_trace_samples_fix(Trace const& t)
-- 
2.43.0


From 21bf712d99459848be382977537b205827ce88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 58/61] fix: trailer after SEG-Y traces of 4 GiB and more was
 not found

The number of bytes to skip was computed in 32 bits.
---
 src/ISEGY.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index fab0738..df39dfd 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -398,8 +398,8 @@ void ISEGY::Impl::read_trailer_stanzas()
 									  ios_base::cur);
                 }
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                common.file.seekg(static_cast<streamoff>(trc_samp_num) *
+								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
-- 
2.43.0


From c8616b5ad5d9d4d243b8b1ca20562d6ba4d033ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 59/61] fix: numbers of SEG-D channel sets above 99 were
 written modulo 100

All bits are set for them, as for the other numbers that do not fit, and the
number is in the extended field.
---
 src/OSEGD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 5c07caa..6fd1d3e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -852,7 +852,9 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        hdr.channel_set_number > 99 ?
+		   	write_u8(&buf, 0xff) :
+		   	to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-- 
2.43.0


From bfb30bdb6ade108ebc6ed494a82383c12d3b42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:46 +0000
Subject: [PATCH 60/61] fix: OSEGDRev2_1 accepted more extended or external
 headers than fit

Their number is stored in two bytes; with more the file can not be read.
---
 src/OSEGDRev2_1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 4a7466c..2cc55d3 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -66,6 +66,9 @@ void OSEGDRev2_1::Impl::check_headers()
         throw Exception(__FILE__, __LINE__,
                         "Number of extended or external headers not equal to "
                         "number in general header.");
+    if (extended_blocks > UINT16_MAX || external_blocks > UINT16_MAX)
+        throw Exception(__FILE__, __LINE__,
+                        "Too many extended or external headers.");
     for (vector<char>& hdr : sgd.common().extended_headers)
         if (hdr.size() != CommonSEGD::EXTENDED_HEADER_SIZE)
             throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From fd01f7da0c54df458aeaaa06f6028cf8b64a9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 61/61] fix: OSEGD wrote traces whose number of samples does
 not fit into its header

When the map of trace header extensions has no place for the number of
samples the trace and all following ones could not be read back. Such traces
are refused.
---
 src/OSEGD.cpp | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 6fd1d3e..5e42096 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -46,6 +46,7 @@ public:
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
     void check_trace(Trace const& trc);
+    static double max_integer(Trace::Header::ValueType type);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
@@ -933,13 +934,17 @@ void OSEGD::Impl::check_trace(Trace const& trc)
             "wrong number of trace header extensions");
     bool samp_num_in_ext = ext_hdr_blks &&
         common.trace_header_extension.empty();
+    // default map has three bytes for number of samples
+    double max_samp_num = 0xffffff;
     for (size_t i = 0; i < common.trace_header_extension.size() &&
         i < static_cast<size_t>(ext_hdr_blks); ++i)
         for (auto& item : common.trace_header_extension[i]) {
             if (!hdr.get(item.second.first))
                 throw Exception(__FILE__, __LINE__, "no such header in trace");
-            if (item.second.first == "SAMP_NUM")
+            if (item.second.first == "SAMP_NUM") {
                 samp_num_in_ext = true;
+                max_samp_num = max_integer(item.second.second);
+            }
         }
     CommonSEGD::ChannelSetHeader& set =
         common.channel_sets[scan_type - 1][ch_set - 1];
@@ -954,6 +959,38 @@ void OSEGD::Impl::check_trace(Trace const& trc)
     if (samp_num != trc.samples().size())
         throw Exception(__FILE__, __LINE__,
             "number of samples differs from number in headers");
+    if (samp_num_in_ext && samp_num > max_samp_num)
+        throw Exception(__FILE__, __LINE__,
+            "number of samples does not fit into trace header");
+}
+
+// biggest number which header of such type can hold,
+// negative if header of such type does not hold integers
+double OSEGD::Impl::max_integer(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+        return INT8_MAX;
+    case Trace::Header::ValueType::uint8_t:
+        return UINT8_MAX;
+    case Trace::Header::ValueType::int16_t:
+        return INT16_MAX;
+    case Trace::Header::ValueType::uint16_t:
+        return UINT16_MAX;
+    case Trace::Header::ValueType::int24_t:
+        return 0x7fffff;
+    case Trace::Header::ValueType::uint24_t:
+        return 0xffffff;
+    case Trace::Header::ValueType::int32_t:
+        return INT32_MAX;
+    case Trace::Header::ValueType::uint32_t:
+        return UINT32_MAX;
+    case Trace::Header::ValueType::int64_t:
+    case Trace::Header::ValueType::uint64_t:
+        return static_cast<double>(INT64_MAX);
+    default:
+        return -1;
+    }
 }
 
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
-- 
2.43.0

