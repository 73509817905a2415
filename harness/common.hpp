// Shared by the drivers: token reader, JSON output, one child process per
// scenario.  A driver executes a scenario file (see gen/*.py) against the
// library's public interface and records every call and what it returned.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <vector>

#include "Exception.hpp"
#include "Trace.hpp"

namespace drv {
using sedaman::Trace;
using Value = Trace::Header::Value;
using std::string;
using std::vector;

inline thread_local FILE* out = nullptr;
inline void P(char const* s) { fputs(s, out); }
inline void P(string const& s) { fputs(s.c_str(), out); }
inline void PI(long long v) { fprintf(out, "%lld", v); }
inline void endl_() { fputs("}\n", out); fflush(out); }

inline void bytes(unsigned char const* p, size_t n)
{
    fputc('[', out);
    for (size_t i = 0; i < n; ++i)
        fprintf(out, i ? ",%d" : "%d", p[i]);
    fputc(']', out);
}
inline void bytes(string const& s)
{
    bytes(reinterpret_cast<unsigned char const*>(s.data()), s.size());
}
inline void be8(uint64_t v, bool bracket = true)
{
    if (bracket) fputc('[', out);
    for (int i = 7; i >= 0; --i)
        fprintf(out, i == 7 ? "%d" : ",%d",
                static_cast<int>((v >> (8 * i)) & 0xff));
    if (bracket) fputc(']', out);
}
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline void dbl(double d) { be8(dbits(d)); }
inline void jstr(string const& s)
{
    fputc('"', out);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(out, "\\u%04x", c);
        else fputc(c, out);
    }
    fputc('"', out);
}
inline void val(Value const& v)
{
    fputc('[', out);
    if (std::holds_alternative<int64_t>(v)) {
        P("0,");
        be8(static_cast<uint64_t>(std::get<int64_t>(v)), false);
    } else {
        P("1,");
        be8(dbits(std::get<double>(v)), false);
    }
    fputc(']', out);
}
inline void hdr(Trace::Header const& h)
{
    fputc('{', out);
    bool first = true;
    for (auto& k : h.keys()) {
        if (!first) fputc(',', out);
        first = false;
        jstr(k);
        fputc(':', out);
        val(*h.get(k));
    }
    fputc('}', out);
}
inline void smp(vector<double> const& s)
{
    fputc('[', out);
    for (size_t i = 0; i < s.size(); ++i) {
        if (i) fputc(',', out);
        dbl(s[i]);
    }
    fputc(']', out);
}
inline void strs(vector<string> const& v)
{
    fputc('[', out);
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) fputc(',', out);
        bytes(v[i]);
    }
    fputc(']', out);
}

// ---- scenario tokens -------------------------------------------------------
struct Tok {
    vector<string> t;
    size_t i = 0;
    string next()
    {
        if (i >= t.size()) { fprintf(stderr, "driver: missing token\n"); _exit(98); }
        return t[i++];
    }
    long long num() { return strtoll(next().c_str(), nullptr, 10); }
    bool more() const { return i < t.size(); }
};
inline Tok split(string const& line)
{
    Tok r;
    size_t p = 0;
    while (p < line.size()) {
        size_t q = line.find(' ', p);
        if (q == string::npos) q = line.size();
        if (q > p) r.t.push_back(line.substr(p, q - p));
        p = q + 1;
    }
    return r;
}
inline int hexd(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline string unhex(string const& h)
{
    if (h == "-") return {};
    string r;
    r.reserve(h.size() / 2);
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r.push_back(static_cast<char>(hexd(h[i]) * 16 + hexd(h[i + 1])));
    return r;
}
inline uint64_t hex64(string const& s) { return strtoull(s.c_str(), nullptr, 16); }
inline Value parse_val(string const& s) // i:<hex> or d:<hex>
{
    uint64_t u = hex64(s.substr(2));
    if (s[0] == 'i') return static_cast<int64_t>(u);
    return bitsd(u);
}
inline string text_name(string const& s) { return s == "-" ? string() : s; }

inline string slurp(string const& f)
{
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), {});
}
// a file with holes; returns its length
inline long long sparse(string const& f, long long size,
                        std::vector<std::pair<long long, string>> const& parts)
{
    rlimit was, wide;
    getrlimit(RLIMIT_FSIZE, &was);
    wide = was;
    wide.rlim_cur = wide.rlim_max;
    setrlimit(RLIMIT_FSIZE, &wide);
    int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd < 0 || ::ftruncate(fd, size)) abort();
    for (auto& p : parts)
        if (::pwrite(fd, p.second.data(), p.second.size(), p.first) !=
            static_cast<ssize_t>(p.second.size())) abort();
    struct stat s;
    ::fstat(fd, &s);
    ::close(fd);
    setrlimit(RLIMIT_FSIZE, &was);
    return s.st_size;
}
inline void spit(string const& f, string const& b)
{
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(b.data(), static_cast<std::streamsize>(b.size()));
}

// "sed" the library's own exception, "std" another standard one
inline char const* kind(std::exception const& e)
{
    return dynamic_cast<sedaman::Exception const*>(&e) ? "sed" : "std";
}

inline string names(string const& k)
{
    using VT = Trace::Header::ValueType;
    (void)sizeof(VT);
    return k;
}
inline Trace::Header::ValueType vtype(string const& s)
{
    using VT = Trace::Header::ValueType;
    static std::map<string, VT> const m = {
        { "int8", VT::int8_t }, { "uint8", VT::uint8_t },
        { "int16", VT::int16_t }, { "uint16", VT::uint16_t },
        { "int24", VT::int24_t }, { "uint24", VT::uint24_t },
        { "int32", VT::int32_t }, { "uint32", VT::uint32_t },
        { "int64", VT::int64_t }, { "uint64", VT::uint64_t },
        { "ibm", VT::ibm }, { "ieee_single", VT::ieee_single },
        { "ieee_double", VT::ieee_double } };
    return m.at(s);
}

// ---- scenario loop ---------------------------------------------------------
// run(lines) executes one scenario in a child; usage: drv scenario-file out dir
inline void rmtree(string const& d)
{
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) {
            string n = e->d_name;
            if (n != "." && n != "..") unlink((d + "/" + n).c_str());
        }
        closedir(p);
    }
    rmdir(d.c_str());
}
// A scenario may have several threads: lines that begin with "@k " belong to
// thread k, the others are executed first.  Every thread has objects and a
// record of its own; the records are put one after another, because threads
// that share no object must behave as if they had run one after another.
template <typename F>
void run_threads(vector<string> const& lines, F run)
{
    vector<string> common;
    std::map<string, vector<string>> part;
    for (auto& l : lines) {
        if (l[0] == '@') {
            size_t sp = l.find(' ');
            part[l.substr(0, sp)].push_back(l.substr(sp + 1));
        } else {
            common.push_back(l);
        }
    }
    run(common);
    if (part.empty()) return;
    struct Rec { char* p = nullptr; size_t n = 0; };
    vector<Rec> recs(part.size());
    std::atomic<size_t> ready { 0 };
    vector<std::thread> ts;
    size_t i = 0;
    for (auto& [k, ls] : part) {
        Rec& rec = recs[i++];
        ts.emplace_back([&rec, &ls, &ready, &run, n = part.size()] {
            out = open_memstream(&rec.p, &rec.n);
            ++ready;
            while (ready < n) { }
            run(ls);
            fclose(out);
        });
    }
    for (auto& t : ts) t.join();
    for (auto& r : recs) {
        fwrite(r.p, 1, r.n, out);
        free(r.p);
    }
}

template <typename F>
int loop(int argc, char** argv, F run)
{
    if (argc != 4) return 99;
    std::ifstream in(argv[1]);
    string const outname = argv[2], dir = argv[3];
    out = fopen(outname.c_str(), "w");
    if (!in || !out) return 99;
    vector<string> lines;
    string line;
    int count = 0;
    bool hung = false;
    auto flush = [&] {
        if (lines.empty()) return;
        if (hung) {
            // one hang is enough: the scenarios after it are not executed
            fprintf(out, "{\"op\":\"begin\"}\n");
            lines.clear();
            return;
        }
        string sd = dir + "/s" + std::to_string(count++);
        mkdir(sd.c_str(), 0700);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(sd.c_str())) _exit(97);
#ifndef NOLIMIT
            rlimit rl { 6ull << 30, 6ull << 30 };
            setrlimit(RLIMIT_AS, &rl);
#endif
            rlimit core { 0, 0 };
            setrlimit(RLIMIT_CORE, &core);
            rlimit fs;
            getrlimit(RLIMIT_FSIZE, &fs);
            fs.rlim_cur = std::min<rlim_t>(fs.rlim_max, 1ull << 28);
            setrlimit(RLIMIT_FSIZE, &fs);
            alarm(30);
            run_threads(lines, run);
            fflush(out);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        fseek(out, 0, SEEK_END);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) exit(99);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            bool hang = hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
            fprintf(out, "\n{\"op\":\"%s\",\"st\":%d}\n",
                    hang ? "hang" : "crash", st);
            fflush(out);
        }
        rmtree(sd);
        lines.clear();
    };
    while (std::getline(in, line)) {
        if (line.rfind("begin", 0) == 0) flush();
        if (!line.empty()) lines.push_back(line);
    }
    flush();
    fclose(out);
    return 0;
}
} // namespace drv
