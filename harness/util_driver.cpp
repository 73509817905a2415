// Runs programs over Trace, Header and Exception objects, the packed decimal
// codec and the code page conversion, and records what they do.
#include "common.hpp"
#include "CommonSEGD.hpp"
#include "CommonSEGY.hpp"
#include "util.hpp"
#include <algorithm>
#include <optional>
#include <unordered_map>
#include <utility>
#include <variant>

using namespace drv;
using sedaman::CommonSEGD;
using sedaman::CommonSEGY;
using sedaman::Exception;
using Header = Trace::Header;
using Hdr = std::unordered_map<string, Value>;

namespace {
struct Obj {
    std::optional<Trace> t;
    std::optional<Header> h;
    std::unique_ptr<Exception> e;
};
// The objects live behind pointers so that every construction and assignment
// is one the scenario asked for.
std::map<string, std::unique_ptr<Obj>> objs;
std::map<string, char const*> held;

// the fields of every structure of headers; see spec/Names.tla
#define F(S, E) { #E, [] { return S::name_as_string(S::Name::E); } }
std::map<string, std::map<string, char const* (*)()>> const names = {
#include "names.hpp"
};
#undef F
void words(string const& text)
{
    P(",\"w\":[");
    string w;
    bool first = true;
    auto end = [&] {
        if (w.empty()) return;
        if (!first) P(",");
        first = false;
        jstr(w);
        w.clear();
    };
    for (unsigned char c : text) {
        if (c < 128 && isalnum(c)) w += tolower(c);
        else end();
    }
    end();
    P("]");
}
Obj& at(string const& n) { return *objs.at(n); }
Obj& fresh(string const& n)
{
    auto& p = objs[n];
    p = std::make_unique<Obj>();
    return *p;
}
Header& header(Obj& o) { return o.t ? o.t->header() : *o.h; }
Header const& header_c(Obj const& o)
{
    return o.t ? o.t->header_const() : *o.h;
}

Hdr parse_hdr(Tok& k)
{
    Hdr m;
    for (long long n = k.num(); n > 0; --n) {
        string key = text_name(k.next());
        m[key] = parse_val(k.next());
    }
    return m;
}
vector<double> parse_smp(Tok& k)
{
    vector<double> s;
    for (long long n = k.num(); n > 0; --n)
        s.push_back(bitsd(hex64(k.next())));
    return s;
}
void map_out(Hdr const& m)
{
    fputc('{', out);
    bool first = true;
    for (auto& [k, v] : m) {
        if (!first) fputc(',', out);
        first = false;
        jstr(k);
        fputc(':', out);
        val(v);
    }
    fputc('}', out);
}
void kv(char const* k, string const& v)
{
    fprintf(out, ",\"%s\":", k);
    jstr(v);
}
void kb(char const* k, string const& v)
{
    fprintf(out, ",\"%s\":", k);
    bytes(v);
}

// ---- packed decimal --------------------------------------------------------
string buf;
long long pos = 0;
template <typename T>
void put(uint64_t v, bool skip, int n, long long& adv)
{
    char* p = buf.data() + pos / 2;
    char* q = p;
    sedaman::to_bcd<T>(&q, static_cast<T>(v), skip, n);
    adv = q - p;
}
template <typename T>
uint64_t bget(bool skip, int n, long long& adv)
{
    char const* p = buf.data() + pos / 2;
    char const* q = p;
    T r = sedaman::from_bcd<T>(&q, skip, n);
    adv = q - p;
    return static_cast<uint64_t>(r);
}
template <typename T>
string rev(string const& b)
{
    T v;
    memcpy(&v, b.data(), sizeof v);
    v = sedaman::swap(v);
    return string(reinterpret_cast<char const*>(&v), sizeof v);
}
template <typename T>
string rw(string const& b, long long& a1, long long& a2)
{
    char const* p = b.data();
    T v = sedaman::read<T>(&p);
    a1 = p - b.data();
    string r(b.size(), '\0');
    char* q = r.data();
    sedaman::write<T>(&q, v);
    a2 = q - r.data();
    return r;
}

void step(Tok& k, string const& op)
{
    if (op == "tnew" || op == "hnew") {
        string h = k.next();
        Hdr m = parse_hdr(k);
        vector<double> s;
        if (op == "tnew") s = parse_smp(k);
        P(",\"hdr\":");
        map_out(m);
        P(",\"smp\":");
        smp(s);
        kv("h", h);
        Obj& o = fresh(h);
        if (op == "tnew") o.t.emplace(std::move(m), std::move(s));
        else o.h.emplace(std::move(m));
    } else if (op == "enew") {
        string h = k.next(), f = unhex(k.next()), ln = k.next(),
               x = unhex(k.next());
        kv("h", h);
        kb("file", f);
        kb("line", ln);
        kb("text", x);
        unsigned long long n = strtoull(ln.c_str(), nullptr, 10);
        Obj& o = fresh(h);
        if (k.next() == "r")
            o.e = std::make_unique<Exception>(std::move(f), n, std::move(x));
        else
            o.e = std::make_unique<Exception>(f, n, x);
    } else if (op == "del") {
        string h = k.next();
        kv("h", h);
        objs.erase(h);
    } else if (op == "cpy" || op == "mov" || op == "asg" || op == "mas"
               || op == "throw") {
        string h = k.next(), g = k.next();
        kv("h", h);
        kv("g", g);
        Obj& b = at(g);
        if (op == "cpy" || op == "mov") {
            Obj& a = fresh(h);
            if (op == "cpy") {
                if (b.t) a.t.emplace(std::as_const(*b.t));
                if (b.h) a.h.emplace(std::as_const(*b.h));
                if (b.e) a.e = std::make_unique<Exception>(std::as_const(*b.e));
            } else {
                if (b.t) a.t.emplace(std::move(*b.t));
                if (b.h) a.h.emplace(std::move(*b.h));
                if (b.e) a.e = std::make_unique<Exception>(std::move(*b.e));
            }
        } else if (op == "throw") {
            Obj& a = fresh(h);
            string how = k.next();
            if (how == "ptr") {
                std::exception_ptr p;
                try { throw Exception(*b.e); }
                catch (...) { p = std::current_exception(); }
                try { std::rethrow_exception(p); }
                catch (Exception const& e) {
                    a.e = std::make_unique<Exception>(e);
                }
            } else if (how == "std") {
                try { throw Exception(*b.e); }
                catch (std::exception const& e) {
                    a.e = std::make_unique<Exception>(
                        dynamic_cast<Exception const&>(e));
                }
            } else {
                try { throw Exception(*b.e); }
                catch (Exception e) {
                    a.e = std::make_unique<Exception>(std::move(e));
                }
            }
        } else {
            Obj& a = at(h);
            if (op == "asg") {
                if (b.t && &(*a.t = std::as_const(*b.t)) != &*a.t) P(",\"bad\":1");
                if (b.h && &(*a.h = std::as_const(*b.h)) != &*a.h) P(",\"bad\":1");
            } else {
                if (b.t && &(*a.t = std::move(*b.t)) != &*a.t) P(",\"bad\":1");
                if (b.h && &(*a.h = std::move(*b.h)) != &*a.h) P(",\"bad\":1");
            }
        }
    } else if (op == "swp") {
        string h = k.next(), g = k.next();
        kv("h", h);
        kv("g", g);
        Obj &a = at(h), &b = at(g);
        if (a.t) std::swap(*a.t, *b.t);
        if (a.h) std::swap(*a.h, *b.h);
    } else if (op == "rot") { // rot by n h1 .. hn: through a growing vector
        long long by = k.num(), n = k.num();
        vector<string> hs;
        for (long long i = 0; i < n; ++i) hs.push_back(k.next());
        fprintf(out, ",\"by\":%lld,\"hs\":[", by);
        for (size_t i = 0; i < hs.size(); ++i) {
            if (i) P(",");
            jstr(hs[i]);
        }
        P("]");
        vector<Trace> v;
        for (auto& h : hs) v.push_back(*at(h).t);
        std::rotate(v.begin(), v.begin() + by % n, v.end());
        v.insert(v.begin(), v.back());
        v.erase(v.begin());
        for (size_t i = 0; i < hs.size(); ++i) *at(hs[i]).t = std::move(v[i]);
    } else if (op == "set") {
        string h = k.next(), key = text_name(k.next());
        Value v = parse_val(k.next());
        kv("h", h);
        kv("key", key);
        P(",\"v\":");
        val(v);
        header(at(h)).set(key, v);
    } else if (op == "hof") {
        string h = k.next(), g = k.next();
        kv("h", h);
        kv("g", g);
        Obj& b = at(g);
        fresh(h).h.emplace(b.t->header_const());
    } else if (op == "hset") {
        string h = k.next(), g = k.next();
        bool mv = k.num();
        kv("h", h);
        kv("g", g);
        P(mv ? ",\"move\":true" : ",\"move\":false");
        if (mv) at(h).t->header() = std::move(*at(g).h);
        else at(h).t->header() = std::as_const(*at(g).h);
    } else if (op == "get") {
        string h = k.next(), key = text_name(k.next());
        kv("h", h);
        kv("key", key);
        auto v = header_c(at(h)).get(key);
        P(v ? ",\"has\":true,\"v\":" : ",\"has\":false,\"v\":");
        if (v) val(*v);
        else P("[]");
    } else if (op == "keys") {
        string h = k.next();
        kv("h", h);
        P(",\"keys\":[");
        bool first = true;
        for (auto& x : header_c(at(h)).keys()) {
            if (!first) P(",");
            first = false;
            jstr(x);
        }
        P("]");
    } else if (op == "look") {
        string h = k.next();
        kv("h", h);
        Obj& o = at(h);
        P(",\"hdr\":");
        hdr(k.more() ? header(o) : header_c(o));
        P(",\"smp\":");
        smp(o.t ? o.t->samples() : vector<double>());
    } else if (op == "what") {
        string h = k.next();
        kv("h", h);
        std::exception const& e = *at(h).e;
        kb("msg", e.what());
    } else if (op == "hold") {
        // the text stays where it is as long as the exception lives
        string h = k.next();
        kv("h", h);
        held[h] = at(h).e->what();
        kb("msg", held[h]);
    } else if (op == "held") {
        string h = k.next();
        kv("h", h);
        kb("msg", held.at(h));
    } else if (op == "name") {
        string s = k.next(), e = k.next();
        kv("s", s);
        kv("e", e);
        char const* t = names.at(s).at(e)();
        words(t ? t : "");
    } else if (op == "desc") {
        string e = k.next();
        kv("s", "trace");
        kv("e", e);
        auto it = CommonSEGY::trace_header_description.find(e);
        words(it == CommonSEGY::trace_header_description.end() ? "" :
              it->second);
    } else if (op == "a2e" || op == "e2a") {
        string b = unhex(k.next());
        kb("b", b);
        if (op == "a2e") CommonSEGY::ascii_to_ebcdic(b);
        else CommonSEGY::ebcdic_to_ascii(b);
        kb("res", b);
    } else if (op == "buf") {
        buf = unhex(k.next());
        pos = 0;
        kb("b", buf);
    } else if (op == "seek") {
        pos = k.num();
        fprintf(out, ",\"p\":%lld", pos);
    } else if (op == "put") { // put type value digits
        string ty = k.next();
        uint64_t v = hex64(k.next());
        int n = static_cast<int>(k.num());
        bool skip = pos % 2;
        long long adv = -1;
        if (ty == "u8") put<uint8_t>(v, skip, n, adv);
        else if (ty == "u16") put<uint16_t>(v, skip, n, adv);
        else if (ty == "i32") put<int32_t>(v, skip, n, adv);
        else if (ty == "u32") put<uint32_t>(v, skip, n, adv);
        else if (ty == "i64") put<int64_t>(v, skip, n, adv);
        else put<uint64_t>(v, skip, n, adv);
        pos += n;
        P(",\"v\":");
        be8(v);
        fprintf(out, ",\"n\":%d,\"adv\":%lld", n, adv);
        kb("b", buf);
    } else if (op == "bget") { // bget type digits
        string ty = k.next();
        int n = static_cast<int>(k.num());
        bool skip = pos % 2;
        long long adv = -1;
        uint64_t v;
        if (ty == "u8") v = bget<uint8_t>(skip, n, adv);
        else if (ty == "u16") v = bget<uint16_t>(skip, n, adv);
        else if (ty == "i32") v = bget<int32_t>(skip, n, adv);
        else if (ty == "u32") v = bget<uint32_t>(skip, n, adv);
        else if (ty == "i64") v = bget<int64_t>(skip, n, adv);
        else v = bget<uint64_t>(skip, n, adv);
        pos += n;
        P(",\"v\":");
        be8(v);
        fprintf(out, ",\"n\":%d,\"adv\":%lld", n, adv);
    } else if (op == "rev" || op == "rw") {
        string b = unhex(k.next()), r;
        bool f = k.more();          // as a floating point type
        long long a1 = 0, a2 = 0;
        kb("b", b);
        bool sw = op == "rev";
        switch (b.size()) {
        case 1: r = sw ? rev<uint8_t>(b) : rw<int8_t>(b, a1, a2); break;
        case 2: r = sw ? rev<uint16_t>(b) : rw<int16_t>(b, a1, a2); break;
        case 4:
            r = sw ? (f ? rev<float>(b) : rev<uint32_t>(b))
                   : (f ? rw<float>(b, a1, a2) : rw<int32_t>(b, a1, a2));
            break;
        default:
            r = sw ? (f ? rev<double>(b) : rev<uint64_t>(b))
                   : (f ? rw<double>(b, a1, a2) : rw<int64_t>(b, a1, a2));
        }
        kb("res", r);
        fprintf(out, ",\"adv\":[%lld,%lld]", a1, a2);
    } else if (op == "ceil") {
        long long n = k.num(), d = k.num();
        fprintf(out, ",\"num\":%lld,\"den\":%lld,\"res\":%d", n, d,
                sedaman::ceil(static_cast<float>(n) / static_cast<float>(d)));
    } else {
        fprintf(stderr, "driver: unknown op %s\n", op.c_str());
        _exit(98);
    }
}

void run(vector<string> const& lines)
{
    for (auto& line : lines) {
        Tok k = split(line);
        string op = k.next();
        fprintf(out, "{\"op\":\"%s\"", op.c_str());
        if (op != "begin") {
            try {
                step(k, op);
            } catch (std::exception const& e) {
                P(",\"exc\":");
                jstr(e.what());
                P("}\n{\"op\":\"exc\"");
            }
        }
        endl_();
    }
    held.clear();
    objs.clear();
}
} // namespace

int main(int argc, char** argv) { return loop(argc, argv, run); }
