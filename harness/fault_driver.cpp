// Readers and writers on a device that fails: write(), writev() and read()
// of the process are replaced, so that they fail when a budget of bytes is
// used up.  The recorder uses stdio, which does not pass through them.
#include "common.hpp"
#include "CommonSEGD.hpp"
#include "CommonSEGY.hpp"
#include "ISEGD.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGDRev2_1.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include <cerrno>
#include <functional>
#include <sys/syscall.h>
#include <sys/uio.h>

using namespace drv;
using namespace sedaman;

namespace {
long long budget = -1; // bytes until failure; -1: healthy
long long first = -1;  // bytes stored when it failed
bool on_write = false, on_read = false, once = false, fired = false;
int err = EIO;
size_t chunk = 0;      // longest transfer, 0: any

// how much of n may be transferred; -1: fail
long long allow(bool armed, size_t n)
{
    if (chunk && n > chunk) n = chunk;
    if (!armed || budget < 0) return static_cast<long long>(n);
    if (n && budget == 0) {
        fired = true;
        errno = err;
        if (once) budget = -1;
        return -1;
    }
    if (static_cast<long long>(n) > budget) n = static_cast<size_t>(budget);
    budget -= static_cast<long long>(n);
    return static_cast<long long>(n);
}
} // namespace

extern "C" ssize_t write(int fd, void const* p, size_t n)
{
    long long k = allow(on_write, n);
    return k < 0 ? -1 : syscall(SYS_write, fd, p, static_cast<size_t>(k));
}
extern "C" ssize_t writev(int fd, iovec const* v, int c)
{
    size_t n = 0;
    for (int i = 0; i < c; ++i) n += v[i].iov_len;
    long long k = allow(on_write, n);
    if (k < 0) return -1;
    ssize_t done = 0;
    for (int i = 0; i < c && k; ++i) {
        size_t m = std::min(v[i].iov_len, static_cast<size_t>(k));
        ssize_t x = syscall(SYS_write, fd, v[i].iov_base, m);
        if (x < 0) return done ? done : -1;
        done += x;
        k -= x;
    }
    return done;
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    long long k = allow(on_read, n);
    return k < 0 ? -1 : syscall(SYS_read, fd, p, static_cast<size_t>(k));
}

namespace {
using BH = CommonSEGY::BinaryHeader;
struct Config {
    string kind;             // y0 y1 y2 d; n0 n1 n2: without headers
    int ns, nt, rest;        // samples, traces, ext texts or trailers
} cfg;

double sample(int k, int i) { return (k * 131 + i * 7) % 1000 - 500; }
Trace make(int k)
{
    std::unordered_map<string, Value> h {
        { "SAMP_NUM", int64_t { cfg.ns } }, { "SAMP_INT", int64_t { 2000 } } };
    if (cfg.kind == "d") {
        h = { { "CHAN", int64_t { k + 1 } },
              { "CH_SET_NUM", int64_t { 1 } }, { "TR_HDR_EXT", int64_t { 1 } },
              { "SCAN_TYPE_NUM", int64_t { 1 } },
              { "SAMP_NUM", int64_t { cfg.ns } } };
    } else {
        h["TRC_SEQ_LINE"] = int64_t { k + 1 };
    }
    vector<double> s(static_cast<size_t>(cfg.ns));
    for (int i = 0; i < cfg.ns; ++i) s[static_cast<size_t>(i)] = sample(k, i);
    return Trace(h, s);
}
struct Writer {
    std::unique_ptr<OSEGYRev0> y0;
    std::unique_ptr<OSEGYRev1> y1;
    std::unique_ptr<OSEGYRev2> y2;
    std::unique_ptr<OSEGDRev2_1> d;
    void write(Trace& t)
    {
        if (y0) y0->write_trace(t);
        if (y1) y1->write_trace(t);
        if (y2) y2->write_trace(t);
        if (d) d->write_trace(t);
    }
};
vector<std::map<uint32_t, std::pair<string, Trace::Header::ValueType>>>
seg_maps()
{
    return { { { 7, { "SAMP_NUM", Trace::Header::ValueType::uint24_t } } } };
}
std::unique_ptr<Writer> open_writer(string const& f)
{
    auto w = std::make_unique<Writer>();
    BH b;
    memset(static_cast<void*>(&b), 0, sizeof b);
    b.format_code = 5;
    b.samp_int = 2000;
    b.samp_per_tr = static_cast<decltype(b.samp_per_tr)>(cfg.ns);
    b.fixed_tr_length = 1;
    vector<string> texts(1 + static_cast<size_t>(cfg.rest), string(3200, 't'));
    if (cfg.kind == "n0") {
        w->y0 = std::make_unique<OSEGYRev0>(f);
    } else if (cfg.kind == "n1") {
        w->y1 = std::make_unique<OSEGYRev1>(f);
    } else if (cfg.kind == "n2") {
        w->y2 = std::make_unique<OSEGYRev2>(f);
    } else if (cfg.kind == "y0") {
        w->y0 = std::make_unique<OSEGYRev0>(f, string(3200, 't'), b);
    } else if (cfg.kind == "y1") {
        b.SEGY_rev_major_ver = 1;
        w->y1 = std::make_unique<OSEGYRev1>(f, texts, b);
    } else if (cfg.kind == "y2") {
        b.SEGY_rev_major_ver = 2;
        b.endianness = 0x01020304;
        b.ext_samp_per_tr = cfg.ns;
        w->y2 = std::make_unique<OSEGYRev2>(
            f, vector<string>(1, string(3200, 't')), b,
            vector<string>(static_cast<size_t>(cfg.rest), string(3200, 'z')));
    } else {
        CommonSEGD::GeneralHeader g {};
        CommonSEGD::GeneralHeader2 g2 {};
        g.format_code = 8058;
        g.add_gen_hdr_blocks = 1;
        g.base_scan_int = 1;
        g.scan_types_per_record = 1;
        g.channel_sets_per_scan_type = 1;
        g2.segd_rev_major = 2;
        g2.segd_rev_minor = 1;
        CommonSEGD::ChannelSetHeader c(1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0,
                                       0, 0, 0, 0, 0, 0, 0, 0, 0);
        c.scan_type_number = 1;
        c.channel_set_number = 1;
        c.number_of_channels = static_cast<uint32_t>(cfg.nt);
        c.subscans_per_ch_set = 1;
        w->d = std::make_unique<OSEGDRev2_1>(
            f, g, g2,
            vector<vector<CommonSEGD::ChannelSetHeader>> { { c } },
            vector<std::shared_ptr<CommonSEGD::AdditionalGeneralHeader>> {},
            vector<vector<char>> {}, vector<vector<char>> {}, seg_maps());
    }
    return w;
}
std::unique_ptr<Writer> wr;
std::unique_ptr<ISEGY> ry;
std::unique_ptr<ISEGYSorted1D> rs;
std::unique_ptr<ISEGD> rd;
int delivered = 0;
string intended;

long long file_size(string const& f)
{
    struct stat st;
    return stat(f.c_str(), &st) ? -1 : st.st_size;
}
void res(char const* r)
{
    fprintf(out, ",\"res\":\"%s\"", r);
}
void fault()
{
    P(fired ? ",\"fired\":true" : ",\"fired\":false");
    fired = false;
}
template <typename F>
bool guarded(F f)
{
    try {
        f();
        res("ok");
        return true;
    } catch (std::exception const&) {
        res("exc");
    }
    return false;
}

void run(vector<string> const& lines)
{
    for (auto& line : lines) {
        Tok t = split(line);
        string op = t.next();
        if ((op == "wtrc" || op == "wclose") && !wr) continue;
        if ((op == "rtrc" || op == "rclose") && !rd && !ry && !rs) continue;
        fprintf(out, "{\"op\":\"%s\"", op.c_str());
        fflush(out);
        if (op == "ref") { // ref kind samples traces rest
            cfg.kind = t.next();
            cfg.ns = static_cast<int>(t.num());
            cfg.nt = static_cast<int>(t.num());
            cfg.rest = static_cast<int>(t.num());
            P(",\"sizes\":[");
            for (int k = 0; k <= cfg.nt; ++k) {
                {
                    auto w = open_writer("ref");
                    for (int i = 0; i < k; ++i) {
                        Trace x = make(i);
                        w->write(x);
                    }
                }
                fprintf(out, k ? ",%lld" : "%lld", file_size("ref"));
            }
            P("]");
            intended = slurp("ref");
        } else if (op == "arm") { // arm w|r|none budget once errno chunk
            string m = t.next();
            on_write = m == "w";
            on_read = m == "r";
            first = -1;
            budget = t.num();
            once = t.num();
            string e = t.next();
            err = e == "nospc" ? ENOSPC : e == "fbig" ? EFBIG : EIO;
            chunk = static_cast<size_t>(t.num());
            fired = false;
        } else if (op == "wopen") {
            guarded([] { wr = open_writer("o"); });
            fault();
        } else if (op == "wtrc") {
            int k = static_cast<int>(t.num());
            if (wr) {
                Trace x = make(k);
                guarded([&] { wr->write(x); });
            } else {
                res("exc");
            }
            fprintf(out, ",\"stored\":%lld", file_size("o"));
            if (fired && first < 0) first = file_size("o");
            fault();
        } else if (op == "wclose") {
            long long before = file_size("o");
            wr.reset();
            bool f = fired;
            if (f && first < 0) first = before;
            on_write = on_read = false;
            string got = slurp("o");
            fprintf(out, ",\"stored\":%zu", got.size());
            // a writer without headers completes its binary header later;
            // what the destructor adds comes after the traces: compare what
            // both have
            bool pre = true;
            // after a failure that passed, the stream may still store the rest
            // of its buffer: only what came before it is compared
            size_t n = std::min(got.size(), intended.size());
            if (once && first >= 0) n = std::min(n, static_cast<size_t>(first));
            for (size_t i = 0; i < n; ++i)
                pre = pre && (got[i] == intended[i]
                              || (cfg.kind[0] == 'n' && i >= 3200 && i < 3600));
            P(pre ? ",\"prefix\":true" : ",\"prefix\":false");
            fired = f;
            fault();
        } else if (op == "ropen") {
            string how = t.next();
            delivered = 0;
            guarded([&] {
                if (cfg.kind == "d") rd = std::make_unique<ISEGD>("ref", seg_maps());
                else if (how == "s") rs = std::make_unique<ISEGYSorted1D>("ref", "TRC_SEQ_LINE");
                else ry = std::make_unique<ISEGY>("ref");
            });
            fault();
        } else if (op == "rtrc") {
            bool same = false;
            if (rd || ry || rs) {
                bool ok = guarded([&] {
                    Trace x = rd ? rd->read_trace()
                        : ry ? ry->read_trace() : rs->read_trace();
                    Trace y = make(delivered++);
                    auto v = x.header_const().get(
                        rd ? "CHAN" : "TRC_SEQ_LINE");
                    same = x.samples() == y.samples() && v
                        && std::holds_alternative<int64_t>(*v)
                        && std::get<int64_t>(*v) == delivered;
                });
                if (!ok) { rd.reset(); ry.reset(); rs.reset(); }
            } else {
                res("exc");
            }
            P(same ? ",\"same\":true" : ",\"same\":false");
            fault();
        } else if (op == "rclose") {
            rd.reset(); ry.reset(); rs.reset();
        } else if (op != "begin") {
            _exit(98);
        }
        endl_();
    }
    wr.reset(); rd.reset(); ry.reset(); rs.reset();
}
} // namespace

int main(int argc, char** argv) { return loop(argc, argv, run); }
