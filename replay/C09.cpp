#include "kv.h"
static int g_fail;
#include <stdio.h>
static int kv_vsnprintf(char* p, size_t n, const char* fmt, va_list ap);
#define vsnprintf kv_vsnprintf
#include <amtl/os/am-path.h>
#undef vsnprintf
static int kv_vsnprintf(char* p, size_t n, const char* fmt, va_list ap) {
    if (g_fail && --g_fail == 0) { for (size_t i = 0; i < n; i++) p[i] = '\\'; return -1; }
    return vsnprintf(p, n, fmt, ap);
}
using namespace ke;
static size_t va(char* b, size_t m, const char* f, ...) { va_list ap; va_start(ap, f); size_t r = path::FormatVa(b, m, f, ap); va_end(ap); return r; }
static void one(size_t n, size_t m, size_t l, int fail) {
    std::string t; for (size_t i = 0; i < l; i++) t += "\\/a\\\\z.\x80"[kv::rnd(8)];
    std::string w = t + "/9/"; for (auto& c : w) if (c == '\\') c = '/';
    for (int k = 0; k < 2; k++) {
        kv::begin("%s(maxlength=%zu) of %s%s", k ? "Format" : "FormatVa", m, kv::esc(t + "\\9/").c_str(), fail ? ", formatting fails" : "");
        unsigned char* p = (unsigned char*)malloc(n ? n : 1); memset(p, '\\', n);
        g_fail = fail; size_t r = k ? path::Format((char*)p, m, "%s\\%d/", t.c_str(), 9) : va((char*)p, m, "%s\\%d/", t.c_str(), 9); g_fail = 0;
        for (size_t i = m; i < n; i++) EXPECT(p[i] == '\\', "byte %zu was written", i);
        if (!m) EXPECT(r == 0);
        else if (fail) EXPECT(r == 0 && p[0] == 0);
        else { size_t e = std::min(w.size(), m - 1); EXPECT(r == e, "returned %zu", r); EXPECT(!memcmp(p, w.data(), e) && p[e] == 0, "content is %s", kv::esc((char*)p).c_str()); }
        free(p);
    }
}
// Text with a zero character inside: its length and content go on behind it.
static void nul(size_t n, size_t m, size_t l) {
    std::string t; for (size_t i = 0; i < l; i++) t += "\\/a."[kv::rnd(4)];
    std::string w = t + std::string(1, 0) + t + "/"; for (auto& c : w) if (c == '\\') c = '/';
    for (int k = 0; k < 2; k++) {
        kv::begin("%s(maxlength=%zu, \"%%s%%c%%s\\\\\") of %s and a zero character", k ? "Format" : "FormatVa", m, kv::esc(t).c_str());
        unsigned char* p = (unsigned char*)malloc(n ? n : 1); memset(p, '\\', n);
        size_t r = k ? path::Format((char*)p, m, "%s%c%s\\", t.c_str(), 0, t.c_str()) : va((char*)p, m, "%s%c%s\\", t.c_str(), 0, t.c_str());
        for (size_t i = m; i < n; i++) EXPECT(p[i] == '\\', "byte %zu was written", i);
        if (!m) EXPECT(r == 0);
        else { size_t e = std::min(w.size(), m - 1); EXPECT(r == e, "returned %zu", r); EXPECT(!memcmp(p, w.data(), e) && p[e] == 0, "content is wrong"); }
        free(p);
    }
}
void kv_main() {
    for (size_t n = 0; n < 14; n++) for (size_t m = 0; m <= n; m++) for (size_t l = 0; l < 6; l++) nul(n, m, l);
    for (int f = 0; f < 2; f++) for (size_t n = 0; n < 14; n++) for (size_t m = 0; m <= n; m++) for (size_t l = 0; l < 12; l++) one(n, m, l, f);
    while (kv::time_left()) { size_t n = kv::rnd(600); one(n, kv::rnd(n + 1), kv::rnd(600), !kv::rnd(8)); }
}
