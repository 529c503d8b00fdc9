#include "kv.h"
// the C library's formatter with every outcome, including a failure on request
static int g_fail;      // 1: this many-th call from now fails
#include <stdio.h>
#include <wchar.h>
static int kv_vsnprintf(char* p, size_t n, const char* fmt, va_list ap);
#define vsnprintf kv_vsnprintf
#include <amtl/am-string.h>
#undef vsnprintf
static int kv_vsnprintf(char* p, size_t n, const char* fmt, va_list ap) {
    if (g_fail && --g_fail == 0) { for (size_t i = 0; i < n; i++) p[i] = 'Z'; return -1; }
    return vsnprintf(p, n, fmt, ap);
}
#define KV_FMT "%.*s%d%c%.*s"
#define KV_ARGS(l) (int)(l), g_src, 7, 0, 3, "abc"
static char g_src[70001];
using namespace ke;
static std::string want(size_t l) { std::string w(g_src, l); w += "7"; w.push_back(0); w += "abc"; return w; }
static size_t vs(char* b, size_t m, const char* f, ...) { va_list ap; va_start(ap, f); size_t r = SafeVsprintf(b, m, f, ap); va_end(ap); return r; }
static std::unique_ptr<char[]> va(const char* f, ...) { va_list ap; va_start(ap, f); auto r = SprintfArgs(f, ap); va_end(ap); return r; }
static std::string sva(const char* f, ...) { va_list ap; va_start(ap, f); auto r = StringPrintfVa(f, ap); va_end(ap); return r; }
static void one(size_t n, size_t m, size_t l, int fail) {
    std::string w = l == ~size_t(0) ? "" : want(l);
    for (int k = 0; k < 2; k++) {
        kv::begin("%s(maxlength=%zu) of a text of %zu characters%s", k ? "SafeSprintf" : "SafeVsprintf", m, w.size(), fail ? ", formatting fails" : "");
        unsigned char* p = (unsigned char*)malloc(n ? n : 1); memset(p, 0xa5, n);
        g_fail = fail; size_t r;
        if (l == ~size_t(0)) r = k ? SafeSprintf((char*)p, m, "%s", "") : vs((char*)p, m, "%s", "");
        else r = k ? SafeSprintf((char*)p, m, KV_FMT, KV_ARGS(l)) : vs((char*)p, m, KV_FMT, KV_ARGS(l));
        bool failed = fail == 1 && m; g_fail = 0;
        for (size_t i = m; i < n; i++) EXPECT(p[i] == 0xa5, "byte %zu was written", i);
        if (!m) EXPECT(r == 0);
        else if (failed) EXPECT(r == 0 && p[0] == 0);
        else { size_t e = std::min(w.size(), m - 1); EXPECT(r == e, "returned %zu", r); EXPECT(!memcmp(p, w.data(), e) && p[e] == 0, "content"); }
        free(p);
    }
    for (int k = 0; k < 4; k++) {
        static const char* nm[] = {"SprintfArgs", "Sprintf", "StringPrintfVa", "StringPrintf"};
        kv::begin("%s of a text of %zu characters, call %d to the formatter fails", nm[k], w.size(), fail);
        g_fail = fail;
        std::unique_ptr<char[]> u; std::string s;
        if (l == ~size_t(0)) { if (k == 0) u = va("%s", ""); if (k == 1) u = Sprintf("%s", ""); if (k == 2) s = sva("%s", ""); if (k == 3) s = StringPrintf("%s", ""); }
        else { if (k == 0) u = va(KV_FMT, KV_ARGS(l)); if (k == 1) u = Sprintf(KV_FMT, KV_ARGS(l)); if (k == 2) s = sva(KV_FMT, KV_ARGS(l)); if (k == 3) s = StringPrintf(KV_FMT, KV_ARGS(l)); }
        bool failed = fail && g_fail == 0; g_fail = 0;
        if (k < 2) { if (failed) EXPECT(!u); else { EXPECT(u); EXPECT(!memcmp(u.get(), w.data(), w.size()) && u[w.size()] == 0, "content"); } }
        else { if (failed) EXPECT(s.empty()); else EXPECT(s == w, "content"); }
    }
}
void kv_main() {
    for (size_t i = 0; i + 1 < sizeof g_src; i++) g_src[i] = "ab%\\/cd\x80\xff"[i % 9];
    for (int f = 0; f < 3; f++) { for (size_t n = 0; n < 12; n++) for (size_t m = 0; m <= n; m++) { one(n, m, -1, f); for (size_t l = 0; l < 10; l++) one(n, m, l, f); } }
    for (uint64_t a : kv::g_hints) for (uint64_t b : kv::g_hints) if (a < 5000 && b < 5000) one(std::max(a, b), std::min(a, b), a, 0);
    while (kv::time_left()) { size_t n = kv::rnd(kv::rnd(3) ? 600 : 70000); one(n, kv::rnd(n + 1), kv::rnd(2) ? kv::rnd(600) : kv::rnd(70000), kv::rnd(3)); }
}
