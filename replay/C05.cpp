#include "kv.h"
#include <sys/mman.h>
#include <amtl/am-string.h>
using namespace ke;
struct Buf {
    size_t n; unsigned char* p; std::string old;
    Buf(size_t n) : n(n), p((unsigned char*)malloc(n ? n : 1)) { for (size_t i = 0; i < n; i++) p[i] = 1 + kv::rnd(255); save(); }
    ~Buf() { free(p); }
    void save() { old.assign((char*)p, n); }
    char* c() { return (char*)p; }
};
static char* dup(const std::string& s, bool term) { char* r = (char*)malloc(s.size() + term + (s.size() + term == 0)); memcpy(r, s.data(), s.size()); if (term) r[s.size()] = 0; return r; }
static void check(Buf& b, size_t m, const std::string& want, size_t ret) {
    EXPECT(ret == want.size(), "returned %zu instead of %zu", ret, want.size());
    EXPECT(want.size() < m || m == 0);
    EXPECT(!memcmp(b.p, want.data(), want.size()), "wrong characters");
    EXPECT(b.p[want.size()] == 0, "no terminator");
    for (size_t i = std::max(m, want.size() + 1); i < b.n; i++) EXPECT(b.p[i] == (unsigned char)b.old[i], "byte %zu was written", i);
}
static void one(size_t n, size_t m, size_t l, size_t k, size_t old) {
    std::string src(l, 0); for (auto& c : src) c = 1 + kv::rnd(255);
    char* s = dup(src, true);
    { kv::begin("SafeStrcpy(maxlength=%zu, source of %zu characters)", m, l); Buf b(n); size_t r = SafeStrcpy(b.c(), m, s);
      if (!m) { EXPECT(r == 0 && !memcmp(b.p, b.old.data(), n)); } else check(b, m, src.substr(0, m - 1), r);
      EXPECT(SafeStrcpy(nullptr, m, s) == 0); }
    { kv::begin("SafeStrcpyN(maxlength=%zu, source of %zu characters, n=%zu)", m, l, k); Buf b(n); size_t r = SafeStrcpyN(b.c(), m, s, k);
      if (!m) { EXPECT(r == 0 && !memcmp(b.p, b.old.data(), n)); } else check(b, m, src.substr(0, std::min(k, m - 1)), r);
      EXPECT(SafeStrcpyN(nullptr, m, s, k) == 0); }
    { kv::begin("SafeStrcpyN(maxlength=%zu, unterminated source of n=%zu characters)", m, l); Buf b(n); char* u = dup(src, false); size_t r = SafeStrcpyN(b.c(), m, u, l); free(u);
      if (!m) { EXPECT(r == 0 && !memcmp(b.p, b.old.data(), n)); } else check(b, m, src.substr(0, m - 1), r); }
    if (old < n) { kv::begin("SafeStrcat(maxlength=%zu, old length %zu, source of %zu characters)", m, old, l); Buf b(n); b.p[old] = 0; b.save(); size_t r = SafeStrcat(b.c(), m, s);
      if (old + 1 >= m) { EXPECT(r == old && !memcmp(b.p, b.old.data(), n), "full buffer"); } else check(b, m, b.old.substr(0, old) + src.substr(0, m - 1 - old), r); }
    free(s);
}
// Destinations of more than 2^31 and 2^32 bytes (reserved, not touched).
static void huge() {
    size_t z = (size_t(1) << 32) + 4096;
    void* v = mmap(nullptr, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (v == MAP_FAILED) return;
    char* p = (char*)v;
    for (int e = 30; e < 33; e++) for (int d = -2; d < 3; d++) {
        size_t m = (size_t(1) << e) + d;
        kv::begin("SafeStrcpy(maxlength=%zu, \"ab\")", m); size_t r = SafeStrcpy(p, m, "ab"); EXPECT(r == 2 && !memcmp(p, "ab", 3), "returned %zu", r);
        kv::begin("SafeStrcat(maxlength=%zu, old content \"ab\", \"cde\")", m); r = SafeStrcat(p, m, "cde"); EXPECT(r == 5 && !memcmp(p, "abcde", 6), "returned %zu", r);
        kv::begin("SafeStrcpyN(maxlength=%zu, \"xyz\", 2)", m); r = SafeStrcpyN(p, m, "xyz", 2); EXPECT(r == 2 && !memcmp(p, "xy", 3), "returned %zu", r);
        kv::begin("SafeStrcpyN(maxlength=3, \"xyz\", %zu)", m); r = SafeStrcpyN(p, 3, "xyz", m); EXPECT(r == 2 && !memcmp(p, "xy", 3), "returned %zu", r);
    }
    munmap(v, z);
}
void kv_main() {
    huge();
    for (uint64_t a : kv::g_hints) for (uint64_t b : kv::g_hints) for (uint64_t c : kv::g_hints)
        if (a < 4000 && b < 4000 && c < 4000) one(std::max(a, b), std::min(a, b), c, a, b / 2);
    for (size_t n = 1; n < 7; n++) for (size_t m = 0; m <= n; m++) for (size_t l = 0; l < 8; l++) for (size_t k = 0; k < 9; k++) for (size_t o = 0; o < n; o++) one(n, m, l, k, o);
    while (kv::time_left()) { size_t n = 1 + kv::rnd(kv::rnd(3) ? 40 : 70000); one(n, kv::rnd(n + 1), kv::rnd(2) ? kv::rnd(50) : kv::rnd(2 * n), kv::rnd(4) ? kv::rnd(60) : kv::rnd() , kv::rnd(n)); }
}
