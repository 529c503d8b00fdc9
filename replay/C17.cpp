#include "track.h"
#include <amtl/am-maybe.h>
using namespace ke;
typedef Maybe<Trk> M;
struct alignas(64) Big { char c[64]; };
// every sequence of up to `len` operations on three Maybes, then random longer ones
struct World {
    alignas(M) char raw[3][sizeof(M)];
    M* m[3];
    bool has[3];
    uint64_t val[3];
    uint64_t next = 100;
};
static const int NOPS = 3 * 5 + 9 * 4;
static std::string apply(World& w, int op) {
    char b[64] = "";
    if (op < 15) {
        int i = op / 5, k = op % 5;
        uint64_t n = w.next++;
        snprintf(b, sizeof b, "m%d.%s; ", i, k == 0 ? "init(n)" : k == 1 ? "init(const&)" : k == 2 ? "init(&&)" : k == 3 ? "=Nothing" : "init()");
        kv::note(b);
        Trk t(n);
        switch (k) {
            case 0: w.m[i]->init(n); break;
            case 1: w.m[i]->init(t); EXPECT(t.v == n, "init(const&) changed its argument"); break;
            case 2: w.m[i]->init(std::move(t)); break;
            case 3: *w.m[i] = Nothing(); break;
            case 4: w.m[i]->init(); n = Trk::DEF; break;
        }
        w.has[i] = k != 3; w.val[i] = n;
        return b;
    }
    op -= 15;
    int k = op / 9, i = op % 9 / 3, j = op % 3;
    snprintf(b, sizeof b, "%s(m%d, m%d); ", k == 0 ? "copy-assign" : k == 1 ? "move-assign" : k == 2 ? "copy-construct" : "move-construct", i, j);
    kv::note(b);
    if (k < 2) {
        if (k == 0) *w.m[i] = *w.m[j]; else *w.m[i] = std::move(*w.m[j]);
        bool h = w.has[j]; uint64_t v = w.val[j];
        if (k == 1 && i != j) w.has[j] = false;
        w.has[i] = h; w.val[i] = v;
    } else if (i != j) {
        w.m[i]->~M();
        memset(w.raw[i], 0xa5, sizeof(M));
        if (k == 2) new (w.raw[i]) M(*w.m[j]); else new (w.raw[i]) M(std::move(*w.m[j]));
        w.has[i] = w.has[j]; w.val[i] = w.val[j];
        if (k == 3) w.has[j] = false;
    }
    return b;
}
static void verify(World& w) {
    size_t n = 0;
    for (int i = 0; i < 3; i++) {
        const M& c = *w.m[i];
        EXPECT(c.isValid() == w.has[i], "m%d", i);
        EXPECT(bool(c) == w.has[i]);
        if (w.has[i]) {
            n++;
            EXPECT(c.get().v == w.val[i], "m%d has %llu", i, (unsigned long long)c.get().v);
            EXPECT((*c).v == w.val[i] && c->v == w.val[i] && (*w.m[i])->v == w.val[i] && w.m[i]->get().v == w.val[i] && (**w.m[i]).v == w.val[i]);
            EXPECT((const char*)&c.get() >= w.raw[i] && (const char*)(&c.get() + 1) <= w.raw[i] + sizeof(M));
        }
    }
    EXPECT(Trk::count() == n, "%zu live elements, %zu held", Trk::count(), n);
}
static void run(const std::vector<int>& ops) {
    kv::begin("Maybe: ");
    World w;
    memset(w.raw, 0xa5, sizeof w.raw);
    for (int i = 0; i < 3; i++) { w.m[i] = i == 2 ? new (w.raw[i]) M(Nothing()) : new (w.raw[i]) M(); w.has[i] = false; }
    verify(w);
    for (int o : ops) { apply(w, o); verify(w); }
    kv::note("destroy all");
    for (int i = 0; i < 3; i++) w.m[i]->~M();
    EXPECT(Trk::count() == 0);
}
void kv_main() {
    {
        kv::begin("Some");
        Trk t(7);
        { auto m = Some(t); EXPECT(m.isValid() && m->v == 7 && t.v == 7); auto n = Some(std::move(t)); EXPECT(n->v == 7); EXPECT(Trk::count() == 3); }
        EXPECT(Trk::count() == 1);
        kv::begin("over-aligned element");
        EXPECT(alignof(Maybe<Big>) % 64 == 0);
        Maybe<Big> b; b.init(); EXPECT(((uintptr_t)&b.get()) % 64 == 0);
    }
    for (int a = 0; a < NOPS; a++) { run({a}); for (int b = 0; b < NOPS; b++) { run({a, b}); for (int c = 0; c < NOPS; c++) run({a, b, c}); } }
    while (kv::time_left()) for (int i = 0; i < 100; i++) {
        std::vector<int> v;
        for (int n = 4 + kv::rnd(12); n; n--) v.push_back(kv::rnd(NOPS));
        run(v);
    }
}
