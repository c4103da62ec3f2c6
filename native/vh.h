// Shared helpers of the native harnesses. A harness runs the real code of /repo against the
// property's contract as oracle. Prints "STAT key value" lines, "SAMPLE text" lines, and on a failure
// "FAIL <what>" followed by the failing input, then exits with status 1.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <algorithm>
#include <set>
#include <map>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <stdint.h>

namespace vh {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool coin() { return next() & 1; }
};
static uint64_t g_seed = 1;
static int g_scale = 1;            // 1 = quick, 10 = thorough
static long g_evals = 0;
static std::set<uint64_t>* g_distinct = new std::set<uint64_t>();
static int g_samples = 0;
static std::string* g_case = new std::string();   // description of the case under way

inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; } return h; }
// Announce a case. nontrivial cases are counted once per distinct description.
inline void begin_case(const std::string& d, bool nontrivial = true) {
    *g_case = d;
    ++g_evals;
    if (nontrivial && g_distinct->size() < 4000000) g_distinct->insert(hash(d));
    if (nontrivial && g_samples < 3 && d.size() > 12) { ++g_samples; printf("SAMPLE %s\n", d.substr(0, 300).c_str()); }
}
[[noreturn]] inline void fail(const std::string& what) {
    printf("FAIL %s\nINPUT %s\n", what.c_str(), g_case->c_str());
    fflush(stdout);
    _exit(1);
}
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }
inline void on_signal(int sig) {
    const char* n = sig == SIGALRM ? "FAIL does not terminate\nINPUT " : "FAIL crash\nINPUT ";
    (void)!write(1, n, strlen(n)); (void)!write(1, g_case->c_str(), g_case->size()); (void)!write(1, "\n", 1);
    _exit(1);
}
inline void on_death() {
    printf("\nFAIL sanitizer report (see output)\nINPUT %s\n", g_case->c_str());
    fflush(stdout);
}
// (re)arm the watchdog: a single group of cases may take this many seconds
inline void watchdog(int sec = 60) { alarm(sec); }
inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--seed") && i + 1 < argc) g_seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--scale") && i + 1 < argc) g_scale = atoi(argv[++i]);
    }
    signal(SIGALRM, on_signal); signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal);
    setvbuf(stdout, 0, _IOLBF, 0);
    watchdog(120);
}
inline int finish() {
    alarm(0);
    printf("STAT evaluations %ld\nSTAT distinct %zu\nDONE\n", g_evals, g_distinct->size());
    fflush(stdout);
    return 0;
}
template<class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
template<class T> std::string strv(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
}
extern "C" inline void __attribute__((used)) vh_keep() {}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace { struct VhDeath { VhDeath() { __sanitizer_set_death_callback(vh::on_death); } } g_vhdeath; }
#endif
