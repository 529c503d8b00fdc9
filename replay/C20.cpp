#include "track.h"
#include <amtl/am-function.h>
using namespace ke;
static long g_news, g_calls; static uint64_t g_last, g_a, g_t;
void* operator new(size_t n) { g_news++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct Arg { uint64_t v; bool valid = true; Arg(uint64_t n) : v(n) {} Arg(const Arg& o) : v(o.v), valid(o.valid) {} Arg(Arg&& o) : v(o.v), valid(o.valid) { o.valid = false; } };
template <int N> struct Cal { Trk t; char pad[N]; explicit Cal(uint64_t v) : t(v) {}
    uint64_t operator()(uint64_t a, Arg x) const { t.check(); g_calls++; g_last = t.v; g_a = a; g_t = x.v; if (!x.valid) kv::fail("argument passed already moved from"); return t.v * 31 + a * 7 + x.v; } };
struct alignas(32) Aln { Trk t; explicit Aln(uint64_t v) : t(v) {} uint64_t operator()(uint64_t a, Arg x) const { if ((uintptr_t)this % 32) kv::fail("misaligned callable"); t.check(); g_calls++; g_last = t.v; g_a = a; g_t = x.v; return t.v * 31 + a * 7 + x.v; } };
typedef Function<uint64_t(uint64_t, Arg)> F;
struct Sml { Trk t; explicit Sml(uint64_t v) : t(v) {} uint64_t operator()(uint64_t a, Arg x) const { t.check(); g_calls++; g_last = t.v; g_a = a; g_t = x.v; if (!x.valid) kv::fail("argument passed already moved from"); return t.v * 31 + a * 7 + x.v; } };
typedef Cal<8> Med; typedef Cal<16> Lrg;
static const int N = 3;
struct World { alignas(F) char raw[N][sizeof(F)]; F* f[N]; uint64_t v[N]; bool small[N]; uint64_t next = 1; };
static void verify(World& w) {
    size_t n = 0;
    for (int i = 0; i < N; i++) {
        const F& f = *w.f[i];
        EXPECT(bool(f) == !!w.v[i], "f%d", i);
        if (!w.v[i]) { EXPECT(!f.usingInlineStorage()); continue; }
        n++;
        long c = g_calls; Arg x(w.next + 5);
        uint64_t r = f(w.next, x);
        EXPECT(x.valid && x.v == w.next + 5, "the caller's argument was changed");
        EXPECT(g_calls == c + 1 && g_last == w.v[i] && g_a == w.next && g_t == w.next + 5 && r == w.v[i] * 31 + w.next * 7 + w.next + 5, "calling f%d", i);
        r = f(3, Arg(4)); EXPECT(r == w.v[i] * 31 + 25);
    }
    EXPECT(Trk::count() == n, "%zu callables alive, %zu held", Trk::count(), n);
}
// ops: 0..3 construct-from 4..7 (const) assign etc
static const int NK = 20, NOPS = NK * 9;
template <typename C> static void fresh(World& w, int i, int how) {
    uint64_t v = w.next++; long news;
    { C c(v); const C& cc = c; news = g_news;
      switch (how) {
        case 0: w.f[i]->~F(); memset(w.raw[i], 0xa5, sizeof(F)); new (w.raw[i]) F(cc); break;
        case 1: w.f[i]->~F(); memset(w.raw[i], 0xa5, sizeof(F)); new (w.raw[i]) F(c); break;
        case 2: w.f[i]->~F(); memset(w.raw[i], 0xa5, sizeof(F)); new (w.raw[i]) F(std::move(c)); break;
        case 3: *w.f[i] = cc; break;
        case 4: *w.f[i] = std::move(c); break;
      }
      if (how == 0 || how == 1 || how == 3) EXPECT(c.t.v == v);
      news = g_news - news; }
    w.v[i] = v;
    if (std::is_same<C, Sml>::value || std::is_same<C, Med>::value) { EXPECT(news == 0 && w.f[i]->usingInlineStorage(), "a small callable was put on the heap"); }
}
static void apply(World& w, int op) {
    int k = op / 9, i = op / 3 % 3, j = op % 3;
    static const char* nm[] = {"=null", "copy", "copy non-const", "move", "=const", "=non-const", "=move"};
    char b[64]; 
    if (k < 7) {
        snprintf(b, sizeof b, "f%d %s f%d; ", i, nm[k], j); kv::note(b);
        bool inl = w.f[j]->usingInlineStorage(); long news = g_news;
        uint64_t v = w.v[j];
        switch (k) {
            case 0: *w.f[i] = nullptr; w.v[i] = 0; break;
            case 1: case 2: case 3:
                if (i == j) break;
                w.f[i]->~F(); memset(w.raw[i], 0xa5, sizeof(F));
                if (k == 1) new (w.raw[i]) F((const F&)*w.f[j]); else if (k == 2) new (w.raw[i]) F(*w.f[j]); else { new (w.raw[i]) F(std::move(*w.f[j])); w.v[j] = 0; }
                w.v[i] = v; break;
            case 4: EXPECT(&(*w.f[i] = (const F&)*w.f[j]) == w.f[i]); w.v[i] = v; break;
            case 5: EXPECT(&(*w.f[i] = *w.f[j]) == w.f[i]); w.v[i] = v; break;
            case 6: EXPECT(&(*w.f[i] = std::move(*w.f[j])) == w.f[i]); if (i != j) w.v[j] = 0; w.v[i] = v; break;
        }
        if (k && k != 2 && (inl || k == 3 || k == 6)) EXPECT(g_news == news, "an inline callable was put on the heap");
    } else {
        int how = (k - 7) % 5, which = j + ((k - 7) / 5) * 3;
        snprintf(b, sizeof b, "f%d from new callable of kind %d, way %d; ", i, which, how); kv::note(b);
        switch (which % 4) { case 0: fresh<Sml>(w, i, how); break; case 1: fresh<Med>(w, i, how); break; case 2: fresh<Lrg>(w, i, how); break; case 3: fresh<Aln>(w, i, how); break; }
    }
    verify(w);
}
static void run(const std::vector<int>& ops) {
    kv::begin("Function: ");
    World w; memset(w.raw, 0xa5, sizeof w.raw);
    for (int i = 0; i < N; i++) { w.f[i] = i ? new (w.raw[i]) F(nullptr) : new (w.raw[i]) F(); w.v[i] = 0; }
    verify(w);
    fresh<Sml>(w, 1, 0); fresh<Lrg>(w, 2, 0); verify(w);
    for (int o : ops) apply(w, o);
    kv::note("destroy all");
    for (int i = 0; i < N; i++) w.f[i]->~F();
    EXPECT(Trk::count() == 0, "%zu callables left", Trk::count());
}
static uint64_t plain(uint64_t a, Arg x) { return a + x.v; }
void kv_main() {
    kv::begin("function pointer and reference argument");
    { F f(plain); EXPECT(f && f(3, Arg(4)) == 7); F g(f); EXPECT(g(1, Arg(1)) == 2); f = nullptr; EXPECT(!f && g);
      int hits = 0; Function<void(int&)> r = [&](int& x) { x++; hits++; }; int q = 5; r(q); EXPECT(q == 6 && hits == 1);
      Function<int&(int&)> s = [](int& x) -> int& { return x; }; EXPECT(&s(q) == &q); }
    EXPECT(Trk::count() == 0);
    for (int a = 0; a < NOPS; a++) { run({a}); for (int b = 0; b < NOPS; b++) run({a, b}); }
    while (kv::time_left()) for (int i = 0; i < 100; i++) {
        std::vector<int> v;
        for (int n = 3 + kv::rnd(10); n; n--) v.push_back(kv::rnd(NOPS));
        run(v);
    }
}
