// Executes SEG-Y scenarios: readers, sorted reader, writers.
#include "common.hpp"
#include "CommonSEGY.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
using namespace drv;
using namespace sedaman;
using BH = CommonSEGY::BinaryHeader;
using Maps = vector<std::pair<string, std::map<uint32_t,
      std::pair<string, Trace::Header::ValueType>>>>;

namespace {
#define FIELDS(X) \
    X(job_id) X(line_num) X(reel_num) X(tr_per_ens) X(aux_per_ens) \
    X(samp_int) X(samp_int_orig) X(samp_per_tr) X(samp_per_tr_orig) \
    X(format_code) X(ens_fold) X(sort_code) X(vert_sum_code) \
    X(sw_freq_at_start) X(sw_freq_at_end) X(sw_length) X(sw_type_code) \
    X(sw_ch_tr_num) X(taper_at_start) X(taper_at_end) X(taper_type) \
    X(corr_traces) X(bin_gain_recov) X(amp_recov_meth) X(measure_system) \
    X(impulse_sig_pol) X(vib_pol_code) X(ext_tr_per_ens) X(ext_aux_per_ens) \
    X(ext_samp_per_tr) X(ext_samp_per_tr_orig) X(ext_ens_fold) X(endianness) \
    X(SEGY_rev_major_ver) X(SEGY_rev_minor_ver) X(fixed_tr_length) \
    X(ext_text_headers_num) X(max_num_add_tr_headers) X(time_basis_code) \
    X(num_of_tr_in_file) X(byte_off_of_first_tr) X(num_of_trailer_stanza)

void set_field(BH& b, string const& n, string const& v)
{
#define S(f) if (n == #f) { b.f = static_cast<decltype(b.f)>(strtoll(v.c_str(), nullptr, 10)); return; }
    FIELDS(S)
#undef S
    if (n == "ext_samp_int") { b.ext_samp_int = bitsd(hex64(v)); return; }
    if (n == "ext_samp_int_orig") { b.ext_samp_int_orig = bitsd(hex64(v)); return; }
    _exit(98);
}
void bh_json(BH const& b)
{
    P("{");
#define J(f) P("\"" #f "\":"); be8(static_cast<uint64_t>(b.f)); P(",");
    FIELDS(J)
#undef J
    P("\"ext_samp_int\":"); dbl(b.ext_samp_int);
    P(",\"ext_samp_int_orig\":"); dbl(b.ext_samp_int_orig);
    P("}");
}

thread_local std::map<string, Maps> maps;
thread_local std::map<string, string> maps_json;
thread_local std::map<string, BH> bhs;
thread_local std::map<string, std::unique_ptr<ISEGY>> rds;
thread_local std::map<string, std::unique_ptr<ISEGYSorted1D>> srts;
struct W {
    string f;
    std::unique_ptr<OSEGYRev0> w0;
    std::unique_ptr<OSEGYRev1> w1;
    std::unique_ptr<OSEGYRev2> w2;
};
thread_local std::map<string, W> wrs;

void head(char const* op) { fprintf(out, "{\"op\":\"%s\"", op); }
void kv(char const* k, string const& v) { fprintf(out, ",\"%s\":", k); jstr(v); }
void exc(char const* k) { fprintf(out, ",\"res\":\"exc\",\"kind\":\"%s\"", k); endl_(); }
void maps_arg(string const& m)
{
    P(m == "-" ? ",\"dm\":true,\"maps\":[]" : ",\"dm\":false,\"maps\":");
    if (m != "-") P(maps_json.at(m));
}
void args_mb(string const& m, string const& b)
{
    maps_arg(m);
    P(",\"hasovr\":");
    P(b == "-" ? "false" : "true");
    P(",\"ovr\":");
    if (b == "-") P("0"); else bh_json(bhs.at(b));
}
template <typename R>
void state(R& r)
{
    P(",\"res\":\"ok\",\"bh\":");
    bh_json(r.binary_header());
    P(",\"text\":");
    strs(r.text_headers());
    P(",\"trl\":");
    strs(r.trailer_stanzas());
    endl_();
}
template <typename R, typename... A>
std::unique_ptr<R> make_reader(string const& m, string const& b, A... a)
{
    if (m == "-" && b == "-") return std::make_unique<R>(a...);
    if (m == "-") return std::make_unique<R>(a..., bhs.at(b));
    if (b == "-") return std::make_unique<R>(a..., maps.at(m));
    return std::make_unique<R>(a..., bhs.at(b), maps.at(m));
}

// a reader or writer that failed is not used further
bool gone(string const& h) { return !rds.count(h) && !srts.count(h); }

#define TRY(...) try { __VA_ARGS__ } catch (std::exception & e) { exc(kind(e)); } \
    catch (...) { exc("other"); }

void run(vector<string> const& lines)
{
    for (auto& line : lines) {
        Tok t = split(line);
        string op = t.next();
        if (op == "begin") {
            head("begin"); kv("sc", t.next()); endl_();
        } else if (op == "file") {
            string f = t.next(), b = unhex(t.next());
            spit(f, b);
            head("file"); kv("f", f); P(",\"b\":"); bytes(b); endl_();
        } else if (op == "sparse") {
            string f = t.next(), lay = t.next();
            long long size = t.num(), n = t.num();
            std::vector<std::pair<long long, string>> parts;
            for (long long i = 0; i < n; ++i) {
                long long o = t.num();
                parts.emplace_back(o, unhex(t.next()));
            }
            size = sparse(f, size, parts);
            head("sparse"); kv("f", f); P(",\"lay\":"); P(lay);
            P(",\"size\":"); P(std::to_string(size / 4)); endl_();
        } else if (op == "map") {
            string m = t.next();
            long long n = t.num();
            Maps mm;
            string js = "[";
            for (long long i = 0; i < n; ++i) {
                string nm = text_name(t.next());
                long long k = t.num();
                std::map<uint32_t, std::pair<string, Trace::Header::ValueType>> e;
                if (i) js += ",";
                js += "{\"nl\":" + std::to_string(nm.size()) + ",\"e\":[";
                for (long long j = 0; j < k; ++j) {
                    long long o = t.num();
                    string fn = t.next(), ty = t.next();
                    e[static_cast<uint32_t>(o)] = { fn, vtype(ty) };
                    if (j) js += ",";
                    js += "[" + std::to_string(o) + ",\"" + fn + "\",\"" + ty + "\"]";
                }
                js += "]}";
                mm.emplace_back(nm, e);
            }
            js += "]";
            maps[m] = mm;
            maps_json[m] = js;
        } else if (op == "bh") {
            string b = t.next();
            BH h;
            memset(static_cast<void*>(&h), 0, sizeof h);
            while (t.more()) {
                string kvs = t.next();
                size_t q = kvs.find('=');
                set_field(h, kvs.substr(0, q), kvs.substr(q + 1));
            }
            bhs[b] = h;
        } else if (op == "ropen") {
            string h = t.next(), f = t.next(), m = t.next(), b = t.next();
            head("ropen"); kv("h", h); kv("f", f); args_mb(m, b);
            fflush(out);
            TRY(rds[h] = make_reader<ISEGY>(m, b, f); state(*rds[h]);)
        } else if (op == "sopen") {
            string h = t.next(), f = t.next(), key = t.next(), m = t.next(), b = t.next();
            head("sopen"); kv("h", h); kv("f", f); kv("key", key); args_mb(m, b);
            fflush(out);
            TRY(srts[h] = make_reader<ISEGYSorted1D>(m, b, f, key); state(*srts[h]);)
        } else if (op == "rbin") {
            string f = t.next();
            head("rbin"); kv("f", f);
            TRY(BH b = ISEGY::read_binary_header(f); P(",\"res\":\"ok\",\"bh\":");
                bh_json(b); endl_();)
        } else if (op == "has") {
            string h = t.next();
            if (gone(h)) continue;
            bool r = srts.count(h) ? srts[h]->has_trace() : rds.at(h)->has_trace();
            head("has"); kv("h", h); P(r ? ",\"res\":true" : ",\"res\":false"); endl_();
        } else if (op == "rhdr") {
            string h = t.next();
            if (gone(h)) continue;
            head("rhdr"); kv("h", h);
            TRY(Trace::Header x = srts.count(h) ? srts[h]->read_header()
                                                : rds.at(h)->read_header();
                P(",\"res\":\"ok\",\"hdr\":"); hdr(x); endl_();)
        } else if (op == "rtrc") {
            string h = t.next();
            if (gone(h)) continue;
            head("rtrc"); kv("h", h);
            TRY(Trace x = srts.count(h) ? srts[h]->read_trace()
                                        : rds.at(h)->read_trace();
                P(",\"res\":\"ok\",\"hdr\":"); hdr(x.header_const());
                P(",\"smp\":"); smp(x.samples()); endl_();)
        } else if (op == "rclose") {
            string h = t.next();
            if (gone(h)) continue;
            rds.erase(h);
            srts.erase(h);
            head("rclose"); kv("h", h); endl_();
        } else if (op == "keys") {
            string h = t.next();
            if (gone(h)) continue;
            auto k = srts.at(h)->get_keys();
            head("keys"); kv("h", h); P(",\"keys\":[");
            for (size_t i = 0; i < k.size(); ++i) { if (i) P(","); val(k[i]); }
            P("]"); endl_();
        } else if (op == "geth") {
            string h = t.next();
            if (gone(h)) continue;
            Value v = parse_val(t.next());
            string mx = t.next();
            head("geth"); kv("h", h); P(",\"v\":"); val(v);
            decltype(srts.at(h)->get_headers(v)) r;
            bool ok = false;
            TRY(r = mx == "-" ? srts.at(h)->get_headers(v)
                              : srts.at(h)->get_headers(v, strtoull(mx.c_str(), nullptr, 10));
                ok = true;)
            if (!ok) continue;
            P(",\"res\":\"ok\"");
            P(",\"max\":"); P(mx == "-" ? "1000000" : mx); P(",\"hdrs\":[");
            for (size_t i = 0; i < r.size(); ++i) { if (i) P(","); hdr(r[i]); }
            P("]"); endl_();
        } else if (op == "gett") {
            string h = t.next();
            if (gone(h)) continue;
            Value v = parse_val(t.next());
            string mx = t.next();
            head("gett"); kv("h", h); P(",\"v\":"); val(v);
            decltype(srts.at(h)->get_traces(v)) r;
            bool ok = false;
            TRY(r = mx == "-" ? srts.at(h)->get_traces(v)
                              : srts.at(h)->get_traces(v, strtoull(mx.c_str(), nullptr, 10));
                ok = true;)
            if (!ok) continue;
            P(",\"res\":\"ok\"");
            P(",\"max\":"); P(mx == "-" ? "100000" : mx); P(",\"trcs\":[");
            for (size_t i = 0; i < r.size(); ++i) {
                P(i ? ",{\"hdr\":" : "{\"hdr\":"); hdr(r[i].header_const());
                P(",\"smp\":"); smp(r[i].samples()); P("}");
            }
            P("]"); endl_();
        } else if (op == "wopen") {
            string h = t.next(), f = t.next();
            int rev = static_cast<int>(t.num());
            vector<string> texts(static_cast<size_t>(t.num()));
            for (auto& s : texts) s = unhex(t.next());
            string b = t.next();
            vector<string> trls(static_cast<size_t>(t.num()));
            for (auto& s : trls) s = unhex(t.next());
            string m = t.next();
            BH zero;
            memset(static_cast<void*>(&zero), 0, sizeof zero);
            BH bh = b == "-" ? zero : bhs.at(b);
            head("wopen"); kv("h", h); kv("f", f); P(",\"rev\":"); PI(rev);
            P(",\"texts\":"); strs(texts);
            P(",\"bh\":"); bh_json(bh);
            P(",\"trls\":"); strs(trls);
            maps_arg(m);
            fflush(out);
            W w;
            w.f = f;
            bool plain = b == "-" && trls.empty() && m == "-";
            TRY(
                if (rev == 0) {
                    string tx = texts.empty() ? string() : texts[0];
                    if (plain && texts.empty()) w.w0 = std::make_unique<OSEGYRev0>(f);
                    else if (m == "-") w.w0 = std::make_unique<OSEGYRev0>(f, tx, bh);
                    else w.w0 = std::make_unique<OSEGYRev0>(f, tx, bh, maps.at(m));
                } else if (rev == 1) {
                    if (plain && texts.empty()) w.w1 = std::make_unique<OSEGYRev1>(f);
                    else if (m == "-") w.w1 = std::make_unique<OSEGYRev1>(f, texts, bh);
                    else w.w1 = std::make_unique<OSEGYRev1>(f, texts, bh, maps.at(m));
                } else {
                    if (plain && texts.empty()) w.w2 = std::make_unique<OSEGYRev2>(f);
                    else if (m == "-") w.w2 = std::make_unique<OSEGYRev2>(f, texts, bh, trls);
                    else w.w2 = std::make_unique<OSEGYRev2>(f, texts, bh, trls, maps.at(m));
                }
                wrs[h] = std::move(w);
                P(",\"res\":\"ok\""); endl_();)
        } else if (op == "wtrc") {
            string h = t.next();
            if (!wrs.count(h)) continue;
            long long nf = t.num();
            std::unordered_map<string, Value> hm;
            for (long long i = 0; i < nf; ++i) {
                string n = t.next();
                hm[n] = parse_val(t.next());
            }
            vector<double> s(static_cast<size_t>(t.num()));
            for (auto& x : s) x = bitsd(hex64(t.next()));
            Trace tr(hm, s);
            head("wtrc"); kv("h", h); P(",\"hdr\":"); hdr(Trace::Header(hm));
            P(",\"smp\":"); smp(s);
            fflush(out);
            W& w = wrs.at(h);
            TRY(
                if (w.w0) w.w0->write_trace(tr);
                else if (w.w1) w.w1->write_trace(tr);
                else w.w2->write_trace(tr);
                P(",\"res\":\"ok\""); endl_();)
        } else if (op == "wclose") {
            string h = t.next();
            if (!wrs.count(h)) continue;
            string f = wrs.at(h).f;
            wrs.erase(h);
            string b = slurp(f);
            head("wclose"); kv("h", h); P(",\"b\":"); bytes(b); endl_();
        } else {
            fprintf(stderr, "driver: unknown op %s\n", op.c_str());
            _exit(98);
        }
    }
    rds.clear(); srts.clear(); wrs.clear();
}
} // namespace

int main(int argc, char** argv) { return loop(argc, argv, run); }
