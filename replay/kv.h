// Native bounded search: runs the real code against an oracle.  Used to find a concrete failing input for an obligation
// the verifier refuted, and as the labelled bounded stand-in where the verifier cannot decide.
#pragma once
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)());

namespace kv {
inline char g_desc[1 << 16];
inline unsigned long g_cases;
inline double g_end;
inline bool g_thorough;
inline std::vector<uint64_t> g_hints;
inline uint64_t g_s;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool time_left() { return now() < g_end; }
inline uint64_t rnd() {
    g_s += 0x9e3779b97f4a7c15ull;
    uint64_t z = g_s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

inline void show(const char* why) {
    char buf[512];
    int n = snprintf(buf, sizeof buf, "\nFAIL (%s) in case %lu: ", why, g_cases);
    (void)!write(1, buf, n);
    (void)!write(1, g_desc, strlen(g_desc));
    (void)!write(1, "\n", 1);
}
inline void on_death() { show("sanitizer report"); }
inline void on_sig(int s) {
    show(s == SIGALRM ? "does not terminate" : s == SIGABRT ? "assertion or abort" : "crash");
    _exit(97);
}
inline void watchdog(int secs = 20) {
    alarm(secs);
}
// describe the case about to run
__attribute__((format(printf, 1, 2))) inline void begin(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    vsnprintf(g_desc, sizeof g_desc, f, ap);
    va_end(ap);
    g_cases++;
    static double last;
    double t = now();
    if (t > last + 1) { last = t; watchdog(); }
}
inline void note(const std::string& s) {
    size_t n = strlen(g_desc);
    if (n + s.size() + 2 < sizeof g_desc) {
        memcpy(g_desc + n, s.c_str(), s.size() + 1);
    }
}
__attribute__((format(printf, 1, 2))) inline void fail(const char* f, ...) {
    va_list ap;
    char buf[4096];
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    show(buf);
    fflush(stdout);
    _exit(1);
}
#define EXPECT(c, ...) do { if (!(c)) kv::fail("expected " #c "; " __VA_ARGS__); } while (0)

// interesting integers of the given width
inline std::vector<uint64_t> ints(int bits) {
    std::vector<uint64_t> v;
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    auto add = [&](uint64_t x) { x &= m; if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
    for (uint64_t h : g_hints) { add(h); add(h + 1); add(h - 1); }
    for (uint64_t i = 0; i < 18; i++) add(i);
    for (int i = 0; i < bits; i++) { add(1ull << i); add((1ull << i) - 1); add((1ull << i) + 1); add(~(1ull << i)); add(m - (1ull << i)); }
    for (int i = 0; i < 20; i++) add(rnd());
    for (int i = 0; i < 20; i++) add(rnd() >> rnd(bits));
    return v;
}
inline std::string esc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
} // namespace kv

void kv_main();

int main(int argc, char** argv) {
    double secs = 5;
    kv::g_s = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seconds") secs = atof(argv[i + 1]);
        if (a == "--seed") kv::g_s = strtoull(argv[i + 1], 0, 10) * 7919 + 1;
        if (a == "--tier") kv::g_thorough = std::string(argv[i + 1]) == "thorough";
        if (a == "--hints") {
            char* p = argv[i + 1];
            while (*p) { kv::g_hints.push_back(strtoull(p, &p, 10)); if (*p) p++; }
        }
    }
    kv::g_end = kv::now() + secs;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    __sanitizer_set_death_callback(kv::on_death);
    for (int s : {SIGABRT, SIGALRM, SIGBUS, SIGILL, SIGFPE})
        signal(s, kv::on_sig);
    kv_main();
    alarm(0);
    printf("CASES %lu\n", kv::g_cases);
    return 0;
}
