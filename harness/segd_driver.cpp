// Executes SEG-D scenarios: reader and revision 2.1 writer.
#include "common.hpp"
#include "CommonSEGD.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
using namespace drv;
using namespace sedaman;
using C = CommonSEGD;
using Ext = std::map<uint32_t, std::pair<string, Trace::Header::ValueType>>;
using Maps = vector<Ext>;

namespace {
// ---- fields of the header classes -----------------------------------------
#define GH(X) \
    X(file_number) X(format_code) X(gen_const) X(year) X(add_gen_hdr_blocks) \
    X(day) X(hour) X(minute) X(second) X(manufac_code) X(manufac_num) \
    X(bytes_per_scan) X(base_scan_int) X(polarity) X(scans_per_block) \
    X(record_type) X(record_length) X(scan_types_per_record) \
    X(channel_sets_per_scan_type) X(skew_blocks) X(extended_hdr_blocks) \
    X(external_hdr_blocks)
#define GH2(X) \
    X(expanded_file_num) X(ext_ch_sets_per_scan_type) X(extended_hdr_blocks) \
    X(external_hdr_blocks) X(extended_skew_blocks) X(segd_rev_major) \
    X(segd_rev_minor) X(gen_trailer_num_of_blocks) X(ext_record_len) \
    X(record_set_number) X(ext_num_add_blks_in_gen_hdr) \
    X(dominant_sampling_int) X(gen_hdr_block_num) X(sequence_number)
#define GH3(X) \
    X(time_zero) X(record_size) X(data_size) X(header_size) X(extd_rec_mode) \
    X(rel_time_mode) X(gen_hdr_block_num)
#define GHN(X) \
    X(expanded_file_number) X(sou_line_num) X(sou_point_num) \
    X(sou_point_index) X(phase_control) X(type_vibrator) X(phase_angle) \
    X(gen_hdr_block_num) X(sou_set_num)
#define CHS(X) \
    X(scan_type_number) X(channel_set_number) X(channel_type) \
    X(channel_set_start_time) X(channel_set_end_time) X(descale_multiplier) \
    X(number_of_channels) X(subscans_per_ch_set) X(channel_gain) \
    X(alias_filter_freq) X(alias_filter_slope) X(low_cut_filter_freq) \
    X(low_cut_filter_slope) X(first_notch_filter) X(second_notch_filter) \
    X(third_notch_filter) X(ext_ch_set_num) X(ext_hdr_flag) X(trc_hdr_ext) \
    X(vert_stack) X(streamer_no) X(array_forming)
#define SRC(X) \
    X(expanded_file_number) X(sou_line_num) X(sou_point_num) \
    X(sou_point_index) X(source_id) X(source_set_num) X(reshoot_idx) \
    X(group_idx) X(depth_idx) X(offset_crossline) X(offset_inline) X(size) \
    X(offset_depth) X(gen_hdr_block_type)

template <typename T> void put(T const& v) { be8(static_cast<uint64_t>(static_cast<int64_t>(v))); }
void put(double const& v) { dbl(v); }
template <size_t N> void put(char const (&v)[N])
{
    bytes(reinterpret_cast<unsigned char const*>(v), N);
}
template <size_t N> void put(std::array<char, N> const& v)
{
    bytes(reinterpret_cast<unsigned char const*>(v.data()), N);
}
template <typename T> void from(T& f, string const& v)
{
    f = static_cast<T>(strtoll(v.c_str(), nullptr, 10));
}
void from(double& f, string const& v) { f = bitsd(hex64(v)); }

#define J(f) P(first ? "\"" #f "\":" : ",\"" #f "\":"); first = false; put(b.f);
#define OBJ(fields) { bool first = true; P("{"); fields(J) P("}"); }
void js(C::GeneralHeader const& b) OBJ(GH)
void js(C::GeneralHeader2 const& b) OBJ(GH2)
void js(C::GeneralHeader3 const& b) OBJ(GH3)
void js(C::GeneralHeaderN const& b) OBJ(GHN)
void js(C::ChannelSetHeader b)
{
    bool first = true;
    P("{");
    CHS(J)
    auto n = b.number_of_samples();
    P(",\"opt\":"); P(n ? "true" : "false");
    if (n) {
        P(",\"number_of_samples\":"); put(*n);
        P(",\"samp_int\":"); put(*b.samp_int());
        P(",\"filter_phase\":"); put(*b.filter_phase());
        P(",\"physical_unit\":"); put(*b.physical_unit());
        P(",\"filter_delay\":"); put(*b.filter_delay());
        P(",\"description\":"); put(*b.description());
    } else if (b.samp_int() || b.filter_phase() || b.physical_unit() ||
               b.filter_delay() || b.description())
        P(",\"mixed\":true");
    P("}");
}
#define NONE(X)
#define TXT1(X) X(gen_hdr_block_type)
#define VES(X) X(abbr_vessel_crew_name) X(vessel_crew_name) TXT1(X)
#define SUR(X) X(survey_area_name) TXT1(X)
#define CLI(X) X(client_name) TXT1(X)
#define JOB(X) X(abbr_job_id) X(job_id) TXT1(X)
#define LIN(X) X(line_abbr) X(line_id) TXT1(X)
#define VIB(X) SRC(X) X(phase_control) X(type_vibrator) X(phase_angle)
#define EXP(X) SRC(X) X(depth) X(charge_length) X(soil_type)
#define AIR(X) SRC(X) X(depth) X(air_pressure)
#define ELE(X) SRC(X) X(source_type) X(moment)
#define ADD(X) X(time) X(source_status) X(source_id) X(source_moving) X(error_description) TXT1(X)
#define SAUX(X) X(source_id) \
    X(scan_type_num_1) X(ch_set_num_1) X(trace_num_1) \
    X(scan_type_num_2) X(ch_set_num_2) X(trace_num_2) \
    X(scan_type_num_3) X(ch_set_num_3) X(trace_num_3) \
    X(scan_type_num_4) X(ch_set_num_4) X(trace_num_4) \
    X(scan_type_num_5) X(ch_set_num_5) X(trace_num_5) TXT1(X)
#define SEN(X) X(instrument_test_time) X(sensor_sensitivity) X(instr_test_result) X(serial_number) TXT1(X)
#define SCA(X) X(freq1) X(amp1) X(phase1) X(freq2) X(amp2) X(phase2) X(calib_applied) TXT1(X)
#define TIM(X) X(time_of_depl) X(time_of_retr) X(timer_offset_depl) X(time_offset_retr) X(timedrift_corr) X(corr_method) TXT1(X)
#define ELSR(X) X(equip_dim_x) X(equip_dim_y) X(equip_dim_z) X(pos_term) X(equip_offset_x) X(equip_offset_y) X(equip_offset_z) TXT1(X)
#define POS1(X) X(time_of_position) X(time_of_measurement) X(vert_error) X(hor_error_semi_major) X(hor_error_semi_minor) X(hor_error_orientation) X(position_type) TXT1(X)
#define POS2(X) X(crs_a_coord1) X(crs_a_coord2) X(crs_a_coord3) X(crs_a_crsref) X(pos1_valid) X(pos1_quality) TXT1(X)
#define POS3(X) X(crs_b_coord1) X(crs_b_coord2) X(crs_b_coord3) X(crs_b_crsref) X(pos2_valid) X(pos2_quality) TXT1(X)
#define CRS(X) X(crs) TXT1(X)
#define REL(X) X(offset_east) X(offset_north) X(offset_vert) X(description) TXT1(X)
#define ORI(X) X(rot_x) X(rot_y) X(rot_z) X(ref_orientation) X(time_stamp) X(ori_type) X(ref_orient_valid) X(rot_applied) X(rot_north_applied) TXT1(X)
#define MEAS(X) X(timestamp) X(measurement_value) X(maximum_value) X(minimum_value) X(quantity_class) X(unit_of_measure) X(measurement_description) TXT1(X)
void js(C::GeneralHeaderVes const& b) OBJ(VES)
void js(C::GeneralHeaderSur const& b) OBJ(SUR)
void js(C::GeneralHeaderCli const& b) OBJ(CLI)
void js(C::GeneralHeaderJob const& b) OBJ(JOB)
void js(C::GeneralHeaderLin const& b) OBJ(LIN)
void js(C::GeneralHeaderVib const& b) OBJ(VIB)
void js(C::GeneralHeaderExp const& b) OBJ(EXP)
void js(C::GeneralHeaderAir const& b) OBJ(AIR)
void js(C::GeneralHeaderWat const& b) OBJ(AIR)
void js(C::GeneralHeaderEle const& b) OBJ(ELE)
void js(C::GeneralHeaderOth const& b) OBJ(SRC)
void js(C::GeneralHeaderAdd const& b) OBJ(ADD)
void js(C::GeneralHeaderSaux const& b) OBJ(SAUX)
void js(C::GeneralHeaderSen const& b) OBJ(SEN)
void js(C::GeneralHeaderSCa const& b) OBJ(SCA)
void js(C::GeneralHeaderTim const& b) OBJ(TIM)
void js(C::GeneralHeaderElSR const& b) OBJ(ELSR)
void js(C::GeneralHeaderPos1 const& b) OBJ(POS1)
void js(C::GeneralHeaderPos2 const& b) OBJ(POS2)
void js(C::GeneralHeaderPos3 const& b) OBJ(POS3)
void js(C::GeneralHeaderCoord const& b) OBJ(CRS)
void js(C::GeneralHeaderRel const& b) OBJ(REL)
void js(C::GeneralHeaderOri const& b) OBJ(ORI)
void js(C::GeneralHeaderMeas const& b) OBJ(MEAS)

// ---- scenario objects ------------------------------------------------------
thread_local std::map<string, Maps> maps;
thread_local std::map<string, string> maps_json;
thread_local std::map<string, std::unique_ptr<ISEGD>> rds;
struct W {
    string f;
    std::unique_ptr<OSEGDRev2_1> w;
};
thread_local std::map<string, W> wrs;
// what the next writer is given
struct Given {
    C::GeneralHeader gh {};
    C::GeneralHeader2 gh2 {};
    vector<C::GeneralHeaderN> ghn;
    bool blk3 = false;
    vector<int> types;
    vector<vector<C::ChannelSetHeader>> chs;
    vector<vector<char>> ext, extl;
};
thread_local Given giv;

template <typename T, typename F>
void kvs(Tok& t, T& obj, F set)
{
    while (t.more()) {
        string s = t.next();
        size_t q = s.find('=');
        if (!set(obj, s.substr(0, q), s.substr(q + 1))) _exit(98);
    }
}
#define S(f) if (n == #f) { from(b.f, v); return true; }
#define SETTER(type, fields) \
    auto set = [](type& b, string const& n, string const& v) { fields(S) return false; };

void head(char const* op) { fprintf(out, "{\"op\":\"%s\"", op); }
void kv(char const* k, string const& v) { fprintf(out, ",\"%s\":", k); jstr(v); }
void exc(char const* k) { fprintf(out, ",\"res\":\"exc\",\"kind\":\"%s\"", k); endl_(); }
void arg_maps(string const& m)
{
    P(",\"mn\":"); jstr(m == "Sercel428xl" || m == "Sercel428" || m == "Sercel408" ? m : "");
    P(",\"maps\":");
    P(m == "-" || !maps_json.count(m) ? "[]" : maps_json.at(m));
}
Maps get_maps(string const& m)
{
    if (m == "-") return {};
    if (m == "Sercel428xl") return C::sercel_428xl;
    if (m == "Sercel428") return C::sercel_428;
    if (m == "Sercel408") return C::sercel_408;
    return maps.at(m);
}
template <typename V, typename F> void arr(V const& v, F f)
{
    P("[");
    bool first = true;
    for (auto& x : v) { if (!first) P(","); first = false; f(x); }
    P("]");
}
void blob(vector<char> const& v)
{
    bytes(reinterpret_cast<unsigned char const*>(v.data()), v.size());
}
#define TRY(...) try { __VA_ARGS__ } catch (std::exception & e) { exc(kind(e)); } \
    catch (...) { exc("other"); }

template <typename O> void blk(bool& first, int type, O const& o)
{
    if (!o) return;
    if (!first) P(",");
    first = false;
    auto c = *o;
    fprintf(out, "{\"t\":%d,\"ty\":%d,\"v\":", type, int(c.type()));
    js(*o);
    P("}");
}
template <typename B> std::shared_ptr<C::AdditionalGeneralHeader> typed(int t)
{
    auto b = std::make_shared<B>(B {});
    b->gen_hdr_block_type = t;
    return b;
}
std::shared_ptr<C::AdditionalGeneralHeader> block3(int t)
{
    switch (t) {
    case 0x10: return typed<C::GeneralHeaderVes>(t);
    case 0x11: return typed<C::GeneralHeaderSur>(t);
    case 0x12: return typed<C::GeneralHeaderCli>(t);
    case 0x13: return typed<C::GeneralHeaderJob>(t);
    case 0x14: return typed<C::GeneralHeaderLin>(t);
    case 0x15: return typed<C::GeneralHeaderVib>(t);
    case 0x16: return typed<C::GeneralHeaderExp>(t);
    case 0x17: return typed<C::GeneralHeaderAir>(t);
    case 0x18: return typed<C::GeneralHeaderWat>(t);
    case 0x19: return typed<C::GeneralHeaderEle>(t);
    case 0x1f: return typed<C::GeneralHeaderOth>(t);
    case 0x20: return typed<C::GeneralHeaderAdd>(t);
    case 0x21: return typed<C::GeneralHeaderSaux>(t);
    case 0x41: return typed<C::GeneralHeaderSen>(t);
    case 0x43: return typed<C::GeneralHeaderSCa>(t);
    case 0x44: return typed<C::GeneralHeaderTim>(t);
    case 0x45: return typed<C::GeneralHeaderElSR>(t);
    case 0x50: return typed<C::GeneralHeaderPos1>(t);
    case 0x51: return typed<C::GeneralHeaderPos2>(t);
    case 0x52: return typed<C::GeneralHeaderPos3>(t);
    case 0x55: return typed<C::GeneralHeaderCoord>(t);
    case 0x56: return typed<C::GeneralHeaderRel>(t);
    case 0x60: return typed<C::GeneralHeaderOri>(t);
    default: return typed<C::GeneralHeaderMeas>(0x61);
    }
}
// everything the reader knows of the current record
void snapshot(ISEGD& r)
{
    P(",\"gh\":"); js(r.general_header());
    auto g2 = r.general_header2();
    P(",\"gh2\":["); if (g2) js(*g2); P("]");
    auto g3 = r.general_header3();
    P(",\"gh3\":["); if (g3) js(*g3); P("]");
    auto ghn = r.general_headerN();
    P(",\"ghn\":"); arr(ghn, [](auto& x) { js(x); });
    P(",\"ghnt\":"); arr(ghn, [](auto x) { fprintf(out, "%d", int(x.type())); });
    bool first = true;
    P(",\"blk\":[");
    blk(first, 0x10, r.general_header_vessel_crew_id());
    blk(first, 0x11, r.general_header_survey_name());
    blk(first, 0x12, r.general_header_client_name());
    blk(first, 0x13, r.general_header_job_id());
    blk(first, 0x14, r.general_header_line_id());
    blk(first, 0x15, r.general_header_vibrator_info());
    blk(first, 0x16, r.general_header_explosive_info());
    blk(first, 0x17, r.general_header_airgun_info());
    blk(first, 0x18, r.general_header_watergun_info());
    blk(first, 0x19, r.general_header_electromagnetic_info());
    blk(first, 0x1f, r.general_header_other_source_info());
    blk(first, 0x20, r.general_header_add_source_info());
    blk(first, 0x21, r.general_header_sou_aux_chan_ref());
    blk(first, 0x41, r.general_header_sen_info_hdr_ext_blk());
    blk(first, 0x43, r.general_header_sen_calib_blk());
    blk(first, 0x44, r.general_header_time_drift_blk());
    blk(first, 0x45, r.general_header_elemag_src_rec_desc_blk());
    blk(first, 0x50, r.general_header_position_blk_1());
    blk(first, 0x51, r.general_header_position_blk_2());
    blk(first, 0x52, r.general_header_position_blk_3());
    blk(first, 0x55, r.general_header_coord_ref_blk());
    blk(first, 0x56, r.general_header_relative_pos_blk());
    blk(first, 0x60, r.general_header_orient_hdr_blk());
    blk(first, 0x61, r.general_header_measurement_blk());
    P("]");
    P(",\"ext\":"); arr(r.extended_headers(), blob);
    P(",\"extl\":"); arr(r.external_headers(), blob);
    P(",\"chs\":");
    arr(r.channel_set_headers(), [](auto& s) { arr(s, [](auto& x) { js(x); }); });
}

void run(vector<string> const& lines)
{
    for (auto& line : lines) {
        Tok t = split(line);
        string op = t.next();
        if (op == "begin") {
            head("begin"); kv("sc", t.next()); endl_();
        } else if (op == "file") {
            string f = t.next(), b = unhex(t.next());
            spit(f, b);
            head("file"); kv("f", f); P(",\"b\":"); bytes(b); endl_();
        } else if (op == "sparse") {
            string f = t.next(), lay = t.next();
            long long size = t.num(), n = t.num();
            std::vector<std::pair<long long, string>> parts;
            for (long long i = 0; i < n; ++i) {
                long long o = t.num();
                parts.emplace_back(o, unhex(t.next()));
            }
            size = sparse(f, size, parts);
            head("sparse"); kv("f", f); P(",\"lay\":"); P(lay);
            P(",\"size\":"); P(std::to_string(size / 4)); endl_();
        } else if (op == "map") {
            string m = t.next();
            long long n = t.num();
            Maps mm;
            string jsn = "[";
            for (long long i = 0; i < n; ++i) {
                long long k = t.num();
                Ext e;
                if (i) jsn += ",";
                jsn += "[";
                for (long long j = 0; j < k; ++j) {
                    long long o = t.num();
                    string fn = t.next(), ty = t.next();
                    e[static_cast<uint32_t>(o)] = { fn, vtype(ty) };
                    if (j) jsn += ",";
                    jsn += "[" + std::to_string(o) + ",\"" + fn + "\",\"" + ty + "\"]";
                }
                jsn += "]";
                mm.push_back(e);
            }
            jsn += "]";
            maps[m] = mm;
            maps_json[m] = jsn;
        } else if (op == "ropen") {
            string h = t.next(), f = t.next(), m = t.next();
            head("ropen"); kv("h", h); kv("f", f); arg_maps(m);
            fflush(out);
            TRY(rds[h] = m == "-" ? std::make_unique<ISEGD>(f)
                                  : std::make_unique<ISEGD>(f, get_maps(m));
                P(",\"res\":\"ok\""); endl_();)
            if (!rds[h]) rds.erase(h);
        } else if (op == "st") {
            string h = t.next();
            if (!rds.count(h)) continue;
            head("st"); kv("h", h); snapshot(*rds.at(h)); endl_();
        } else if (op == "has") {
            string h = t.next();
            if (!rds.count(h)) continue;
            bool r = rds.at(h)->has_record(), tr = rds.at(h)->has_trace();
            head("has"); kv("h", h); P(r ? ",\"rec\":true" : ",\"rec\":false");
            P(tr ? ",\"trc\":true" : ",\"trc\":false"); endl_();
        } else if (op == "rtrc") {
            string h = t.next();
            if (!rds.count(h)) continue;
            head("rtrc"); kv("h", h);
            TRY(Trace x = rds.at(h)->read_trace();
                P(",\"res\":\"ok\",\"hdr\":"); hdr(x.header_const());
                P(",\"smp\":"); smp(x.samples()); endl_();)
        } else if (op == "skip") { // many traces, one event
            string h = t.next();
            long long n = t.num(), k = 0;
            if (!rds.count(h)) continue;
            head("skip"); kv("h", h);
            TRY(while (k < n && rds.at(h)->has_trace()) {
                    rds.at(h)->read_trace(); ++k; }
                P(",\"res\":\"ok\",\"n\":" + std::to_string(k)); endl_();)
        } else if (op == "drain") { // whole file, as a user would
            string h = t.next();
            long long n = t.num();
            while (n-- && rds.count(h)) {
                bool r = rds.at(h)->has_record(), tr = rds.at(h)->has_trace();
                head("has"); kv("h", h); P(r ? ",\"rec\":true" : ",\"rec\":false");
                P(tr ? ",\"trc\":true" : ",\"trc\":false"); endl_();
                if (!tr) break;
                bool failed = true;
                head("rtrc"); kv("h", h);
                TRY(Trace x = rds.at(h)->read_trace();
                    P(",\"res\":\"ok\",\"hdr\":"); hdr(x.header_const());
                    P(",\"smp\":"); smp(x.samples()); endl_(); failed = false;)
                if (failed) break;
            }
        } else if (op == "rclose") {
            string h = t.next();
            if (!rds.count(h)) continue;
            rds.erase(h);
            head("rclose"); kv("h", h); endl_();
        } else if (op == "wnew") {
            giv = {};
        } else if (op == "wgh") {
            SETTER(C::GeneralHeader, GH)
            kvs(t, giv.gh, set);
        } else if (op == "wgh2") {
            SETTER(C::GeneralHeader2, GH2)
            kvs(t, giv.gh2, set);
        } else if (op == "wghn") {
            SETTER(C::GeneralHeaderN, GHN)
            C::GeneralHeaderN b {};
            kvs(t, b, set);
            giv.ghn.push_back(b);
        } else if (op == "wblk3") {
            giv.blk3 = true;
            giv.types.push_back(t.num());
        } else if (op == "wscan") {
            giv.chs.emplace_back();
        } else if (op == "wch") {
            SETTER(C::ChannelSetHeader, CHS)
            C::ChannelSetHeader b(1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
            kvs(t, b, set);
            giv.chs.back().push_back(b);
        } else if (op == "wext" || op == "wextl") {
            string b = unhex(t.next());
            (op == "wext" ? giv.ext : giv.extl).emplace_back(b.begin(), b.end());
        } else if (op == "wopen") {
            string h = t.next(), f = t.next(), m = t.next();
            head("wopen"); kv("h", h); kv("f", f);
            P(",\"gh\":"); js(giv.gh);
            P(",\"gh2\":"); js(giv.gh2);
            P(",\"ghn\":"); arr(giv.ghn, [](auto& x) { js(x); });
            P(",\"blk3\":"); P(giv.blk3 ? "true" : "false");
            P(",\"chs\":"); arr(giv.chs, [](auto& s) { arr(s, [](auto& x) { js(x); }); });
            P(",\"ext\":"); arr(giv.ext, blob);
            P(",\"extl\":"); arr(giv.extl, blob);
            arg_maps(m);
            fflush(out);
            W w;
            w.f = f;
            TRY(vector<std::shared_ptr<C::AdditionalGeneralHeader>> add;
                for (auto& g : giv.ghn) add.push_back(std::make_shared<C::GeneralHeaderN>(g));
                for (int y : giv.types) add.push_back(block3(y));
                if (m == "-")
                    w.w = std::make_unique<OSEGDRev2_1>(f, giv.gh, giv.gh2, giv.chs, add, giv.ext, giv.extl);
                else
                    w.w = std::make_unique<OSEGDRev2_1>(f, giv.gh, giv.gh2, giv.chs, add, giv.ext, giv.extl, get_maps(m));
                wrs[h] = std::move(w);
                P(",\"res\":\"ok\""); endl_();)
        } else if (op == "wtrc") {
            string h = t.next();
            if (!wrs.count(h)) continue;
            long long nf = t.num();
            std::unordered_map<string, Value> hm;
            for (long long i = 0; i < nf; ++i) {
                string n = t.next();
                hm[n] = parse_val(t.next());
            }
            vector<double> s(static_cast<size_t>(t.num()));
            for (auto& x : s) x = bitsd(hex64(t.next()));
            Trace tr(hm, s);
            head("wtrc"); kv("h", h); P(",\"hdr\":"); hdr(Trace::Header(hm));
            P(",\"smp\":"); smp(s);
            fflush(out);
            TRY(wrs.at(h).w->write_trace(tr); P(",\"res\":\"ok\""); endl_();)
        } else if (op == "wclose") {
            string h = t.next();
            if (!wrs.count(h)) continue;
            string f = wrs.at(h).f;
            wrs.erase(h);
            string b = slurp(f);
            head("wclose"); kv("h", h); P(",\"b\":"); bytes(b); endl_();
        } else {
            fprintf(stderr, "driver: unknown op %s\n", op.c_str());
            _exit(98);
        }
    }
    rds.clear(); wrs.clear();
}
} // namespace

int main(int argc, char** argv) { return loop(argc, argv, run); }
