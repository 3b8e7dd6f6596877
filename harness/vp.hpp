// Bounded-exhaustive exploration core shared by every harness.
//
// A harness is a list of *sections*. A section is a finite space of cases, numbered 0..N-1; the case number is decoded
// (mixed radix, or an index into a table built deterministically) into one concrete input, operation history or model
// trace, which is run on the real code and compared with a reference model. Every case number of every section is visited
// (split over processes by residue), so the exploration is exhaustive within the space the section declares; nothing is
// sampled. A case is replayed by its section name and number alone.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp
{
typedef uint64_t u64;

struct Violation { std::string section; u64 index; std::string what, input; };
struct SectionStat { std::string name; u64 declared, visited, checks, calls, outcomes, skipped; std::string sample; };

struct CaseFailed { std::string what; };

struct Progress { char section[64]; u64 index; };

struct Core
{
    bool thorough = false;
    u64 shard = 0, nshards = 1;
    std::string only_section; bool have_only = false; bool only_all = false; u64 only_index = 0;
    std::string out;
    std::vector<Violation> violations;
    std::vector<SectionStat> stats;
    Progress* progress = nullptr;
    // current
    std::string cur_section; u64 cur_index = 0; u64 cur_checks = 0, cur_calls = 0, cur_skipped = 0;
    std::unordered_set<u64> cur_outcomes; u64 cur_hash = 0; std::string cur_input;
    std::string scratch;
    std::set<std::string> known_listed; std::map<std::string, u64> known_seen; // recorded defects (known_findings.txt) and how often they were observed
    FILE* log = nullptr;
};
inline Core& core() { static Core c; return c; }

inline bool thorough() { return core().thorough; }

inline std::string fmt(const char* f, ...)
{
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

[[noreturn]] inline void fail(const char* f, ...)
{
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw CaseFailed{b};
}

// the observed behaviour is exactly that of the recorded defect `id`: a violation unless known_findings.txt lists it
inline void known(const std::string& id, const std::string& what)
{
    if(!core().known_listed.count(id)) fail("%s (defect %s, not listed)", what.c_str(), id.c_str());
    core().known_seen[id]++;
}

// describes the current case in words (kept for replay files and samples)
inline void input(const std::string& s) { core().cur_input = s; }
inline void calls(u64 n = 1) { core().cur_calls += n; }
// the case is outside what the property defines (only robustness was exercised)
inline void skip() { core().cur_skipped++; }

// records an observed outcome, so that vacuous exploration (everything the same) shows in the evidence
inline void obs(double x)
{
    float f = (float)x; if(f == 0) f = 0; uint32_t u; memcpy(&u, &f, 4);
    u64& h = core().cur_hash; h = (h ^ u) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
}
inline void obs(const std::string& s) { u64& h = core().cur_hash; for(unsigned char c : s) { h = (h ^ c) * 0x100000001B3ull; } h ^= h >> 31; }

// Magnitude sweep: explore() may run its sections again with every value multiplied by sc(); the absolute floors of the comparisons then
// scale with the result, which is homogeneous of the given degree (1 unless the case says otherwise)
inline double& sc() { static double s = 1; return s; }
inline double& unit() { static double u = 1; return u; }
inline bool& mixed() { static bool m = false; return m; } // scaled and unscaled values meet in one result: floors never shrink
inline void degree(int k) { unit() = std::pow(sc(), k); if(mixed() && unit() < 1) unit() = 1; }
inline void sweep(const std::vector<double>& s, const std::function<void()>& f) { for(double x : s) { sc() = x; f(); } sc() = 1; }
inline bool near(double a, double b, double rel = 1e-9, double abs_ = 1e-11)
{
    abs_ *= unit();
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if(std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs_ + rel * std::fmax(std::fabs(a), std::fabs(b));
}
// observed value vs reference value
inline void eq(double got, double want, const char* what, double rel = 1e-9, double abs_ = 1e-11)
{
    core().cur_checks++;
    obs(got);
    if(!near(got, want, rel, abs_)) fail("%s: implementation %.17g, reference %.17g", what, got, want);
}
inline void eqi(long got, long want, const char* what)
{
    core().cur_checks++; obs((double)got);
    if(got != want) fail("%s: implementation %ld, reference %ld", what, got, want);
}
inline void eqs(const std::string& got, const std::string& want, const char* what)
{
    core().cur_checks++; obs(got);
    if(got != want) fail("%s: implementation '%s', reference '%s'", what, got.c_str(), want.c_str());
}
inline void check(bool ok, const char* f, ...)
{
    core().cur_checks++;
    if(ok) return;
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw CaseFailed{b};
}
// true when f throws a C++ exception of any type
template<typename F> bool throws(F f)
{
    try { f(); } catch(const CaseFailed&) { throw; }
    catch(const std::exception& e) { if(strstr(e.what(), "View bounds error")) fail("%s", e.what()); return true; } // an overrun is not a rejection
    catch(...) { return true; }
    return false;
}

// mixed-radix decoding of a case number
struct Dec
{
    u64 v; explicit Dec(u64 i) : v(i) {}
    u64 take(u64 n) { u64 r = v % n; v /= n; return r; }
    template<typename T, size_t N> const T& pick(const T (&a)[N]) { return a[take(N)]; }
    template<typename T> const T& pick(const std::vector<T>& a) { return a[take(a.size())]; }
};
inline u64 ipow(u64 b, unsigned e) { u64 r = 1; while(e--) r *= b; return r; }

inline std::string vec_str(const std::vector<double>& v)
{
    std::string s = "["; for(size_t i = 0; i < v.size(); i++) { if(i) s += ","; s += fmt("%.12g", v[i]); } return s + "]";
}
inline std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c < 0x20 || c > 0x7e) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

inline void section(const std::string& base, u64 n, const std::function<void(u64)>& f)
{
    Core& c = core(); const std::string name = sc() == 1 ? base : base + fmt("@%g", sc());
    if(c.have_only && c.only_section != name) return;
    c.cur_section = name; c.cur_checks = c.cur_calls = c.cur_skipped = 0; c.cur_outcomes.clear();
    SectionStat st; st.name = name; st.declared = n; st.visited = 0;
    int bad = 0;
    u64 lo = c.shard, step = c.nshards, hi = n;
    if(c.have_only && !c.only_all) { lo = c.only_index; hi = lo + 1; step = 1; if(lo >= n) { fprintf(stderr, "no such case\n"); exit(3); } }
    for(u64 i = lo; i < hi; i += step)
    {
        c.cur_index = i; c.cur_hash = 0x1234567; c.cur_input.clear();
        if(c.progress) { strncpy(c.progress->section, name.c_str(), 63); c.progress->index = i; }
        st.visited++; degree(1);
        std::string what; bool failed = false;
        try { f(i); }
        catch(const CaseFailed& e) { failed = true; what = e.what; }
        catch(const std::exception& e) { failed = true; what = std::string("unexpected exception: ") + e.what(); }
        catch(...) { failed = true; what = "unexpected exception of unknown type"; }
        if(c.cur_outcomes.size() < 2000000) c.cur_outcomes.insert(c.cur_hash);
        if(failed)
        {
            if(what.size() > 1500) what.resize(1500);
            if(getenv("VP_FIRST")) _exit(1); c.violations.push_back({name, i, what, c.cur_input});
            if(++bad >= 3) break; // enough to report; the rest of this section is not explored
        }
        if(i == lo + step * ((hi - lo) / step / 2)) st.sample = fmt("%s[%llu]: ", name.c_str(), (unsigned long long)i) + c.cur_input;
    }
    st.checks = c.cur_checks; st.calls = c.cur_calls; st.outcomes = c.cur_outcomes.size(); st.skipped = c.cur_skipped;
    c.stats.push_back(st);
}

// a case that makes no progress for 40 s of processor time is a hang: the process ends with status 98 (see run.py)
inline void on_tick(int)
{
    static u64 last = 0; static int same = 0; static char sec[64];
    Core& c = core();
    if(!c.progress) return;
    if(c.progress->index == last && !strcmp(sec, c.progress->section)) { if(++same >= 4) _exit(98); }
    else { same = 0; last = c.progress->index; memcpy(sec, c.progress->section, 64); }
}
inline void watchdog() { signal(SIGPROF, on_tick); struct itimerval t = {{10, 0}, {10, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }

void explore(); // defined by the harness: calls section() for every space

inline void write_out()
{
    Core& c = core();
    if(c.out.empty()) return;
    FILE* f = fopen(c.out.c_str(), "w");
    if(!f) { perror("out"); _exit(3); }
    fprintf(f, "{\"violations\":[");
    for(size_t i = 0; i < c.violations.size(); i++)
        fprintf(f, "%s{\"section\":%s,\"index\":%llu,\"what\":%s,\"input\":%s}", i ? "," : "", json_str(c.violations[i].section).c_str(),
                (unsigned long long)c.violations[i].index, json_str(c.violations[i].what).c_str(), json_str(c.violations[i].input).c_str());
    fprintf(f, "],\"sections\":[");
    for(size_t i = 0; i < c.stats.size(); i++)
    {
        auto& s = c.stats[i];
        fprintf(f, "%s{\"name\":%s,\"declared\":%llu,\"visited\":%llu,\"checks\":%llu,\"calls\":%llu,\"outcomes\":%llu,\"skipped\":%llu,\"sample\":%s}", i ? "," : "",
                json_str(s.name).c_str(), (unsigned long long)s.declared, (unsigned long long)s.visited, (unsigned long long)s.checks,
                (unsigned long long)s.calls, (unsigned long long)s.outcomes, (unsigned long long)s.skipped, json_str(s.sample).c_str());
    }
    fprintf(f, "],\"known\":{");
    size_t kn = 0;
    for(auto& k : c.known_seen) fprintf(f, "%s%s:%llu", kn++ ? "," : "", json_str(k.first).c_str(), (unsigned long long)k.second);
    fprintf(f, "},\"complete\":true}\n");
    fclose(f);
}

inline void parse_args(int argc, char** argv)
{
    Core& c = core();
    for(int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if(a == "--thorough") c.thorough = true;
        else if(a == "--shard") { c.shard = strtoull(argv[++i], 0, 10); c.nshards = strtoull(argv[++i], 0, 10); }
        else if(a == "--out") c.out = argv[++i];
        else if(a == "--known") c.known_listed.insert(argv[++i]);
        else if(a == "--scratch") c.scratch = argv[++i];
        else if(a == "--progress")
        {
            int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644);
            if(fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); exit(3); }
            c.progress = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            ::close(fd);
        }
        else if(a == "--only") { c.have_only = true; c.only_section = argv[++i]; std::string ix = argv[++i]; if(ix == "all") c.only_all = true; else c.only_index = strtoull(ix.c_str(), 0, 10); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(3); }
    }
    static Progress own;
    if(!c.progress) c.progress = &own;
    watchdog();
    c.log = fdopen(dup(2), "w");
    // whatever the code under test prints is not part of the verdict
    if(!getenv("VP_KEEP_STDOUT")) { if(!freopen("/dev/null", "w", stdout)) exit(3); }
}
inline int finish()
{
    Core& c = core();
    write_out();
    if(c.have_only && c.stats.empty()) { fprintf(stderr, "no such section\n"); return 3; }
    for(auto& v : c.violations)
        fprintf(stderr, "FAIL %s[%llu] %s\n  input: %s\n", v.section.c_str(), (unsigned long long)v.index, v.what.c_str(), v.input.c_str());
    return c.violations.empty() ? 0 : 1;
}
} // namespace vp
