// Random and systematic histories of the real hash table against std::map, with colliding and clustering hash
// functions, an allocator that counts, poisons and can fail, and elements that check their own life cycle.
#pragma once
#include "track.h"
#include <map>
#include <set>
#include <amtl/am-hashtable.h>
#ifndef PROP
#define PROP 0
#endif
namespace ht {
struct Mem { std::map<void*, size_t> blocks; long fails = -1; long oom = 0, over = 0, allocs = 0, frees = 0, failed = 0; };
inline Mem g_mem;
struct AP {
    int tag = 0;
    AP() {} explicit AP(int t) : tag(t) {} AP(const AP& o) : tag(o.tag) {} AP(AP&& o) : tag(o.tag) {}
    void reportOutOfMemory() { g_mem.oom++; }
    void reportAllocationOverflow() { g_mem.over++; }
    void* am_malloc(size_t n) {
        if (g_mem.fails == 0) { g_mem.failed++; return nullptr; }
        if (g_mem.fails > 0) g_mem.fails--;
        void* p = malloc(n); memset(p, 0xa5, n); g_mem.allocs++; g_mem.blocks[p] = n; return p;
    }
    void am_free(void* p) { if (!p) return; if (!g_mem.blocks.erase(p)) kv::fail("storage released that is not held"); g_mem.frees++; free(p); }
};
inline int g_mode; inline long g_matches;
inline uint32_t inv() { uint32_t a = 0x9E3779B9u, x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
// modes: 0 all collide, 1 four values, 2 neighbouring slots, 3 last slots of the table, 4 spread, 5 reserved hash values
inline uint32_t hash_of(uint32_t k) {
    static const uint32_t I = inv();
    switch (g_mode) { case 0: return 7; case 1: return k & 3; case 2: return (k + 5) * I; case 3: return (0xfffffffcu + (k & 7)) * I; case 4: return k * 2654435761u + 12345; default: return (k & 3) * I; }
}
struct Pol {
    typedef Trk Payload;
    static uint32_t hash(const uint32_t& k) { return hash_of(k); }
    static bool matches(const uint32_t& k, const Trk& t) { t.check(); g_matches++; return (uint32_t)t.v == k; }
};
typedef ke::HashTable<Pol, AP> H;
typedef std::map<uint32_t, uint64_t> Model;
inline void same(H& t, const Model& m, const char* when) {
    EXPECT(t.elements() == m.size(), "%s: %zu elements reported, %zu present", when, t.elements(), m.size());
    EXPECT(Trk::count() == m.size(), "%s: %zu elements alive, %zu present", when, Trk::count(), m.size());
    Model seen; size_t n = 0;
    for (H::iterator i(&t); !i.empty(); i.next()) { n++; EXPECT(n <= m.size(), "%s: iteration visits too much", when); (*i).check(); EXPECT(i->v == (*i).v); EXPECT(seen.emplace((uint32_t)(*i).v, (*i).v).second, "%s: element visited twice", when); }
    EXPECT(seen == m, "%s: iteration", when);
    const H& c = t;
    for (auto& e : m) { auto r = c.find(e.first); EXPECT(r.found(), "%s: key %u not found", when, e.first); EXPECT((*r).v == e.second && r->v == e.second, "%s: key %u has other contents", when, e.first); }
}
enum { ADD, ADDC, ADD0, FINDADD, REM, REMIF, FIND, CLEAR, DENS, MOVE, ERASE, NOPS };
struct World {
    alignas(H) char raw[sizeof(H)]; H* t; Model m; long nth = 1; bool fresh = true;
    World(size_t cap, int tag = 1) { memset(raw, 0xa5, sizeof raw); g_mem.fails = -1; t = new (raw) H(AP(tag)); EXPECT(t->allocPolicy().tag == tag && ((const H*)t)->allocPolicy().tag == tag);
        bool ok = cap ? t->init(cap) : t->init(); EXPECT(ok, "init(%zu)", cap); same(*t, m, "after init"); }
    ~World() { g_mem.fails = -1; t->~H(); EXPECT(Trk::count() == 0, "elements left after destruction"); EXPECT(g_mem.blocks.empty(), "storage left after destruction"); }
    void op(int o, uint32_t k) {
        long al = g_mem.allocs, fl = g_mem.failed, killed = Trk::killed;
        switch (o) {
          case ADD: case ADDC: case ADD0: case FINDADD: {
            H::Insert i = t->findForAdd(k);
            EXPECT(i.found() == !!m.count(k), "findForAdd(%u)", k);
            if (i.found()) { EXPECT((*i).v == m[k] && i->v == m[k], "findForAdd(%u) found another element", k); break; }
            if (o == FINDADD) { same(*t, m, "after findForAdd"); break; }
            uint64_t v = (uint64_t)(nth++) << 32 | k; bool ok;
            { Trk x(v); if (o == ADD) ok = t->add(i, std::move(x)); else if (o == ADDC) { ok = t->add(i, x); EXPECT(x.v == v, "the added value was changed"); } else { ok = t->add(i); if (ok) { EXPECT((*i).v == Trk::DEF, "not a default element"); *i = Trk(v); } }
              if (!ok && o != ADD0) EXPECT(x.v == v, "a failed add consumed the element"); }
            EXPECT(ok == (g_mem.failed == fl), "add(%u) reported %d", k, ok);
            if (ok) { m[k] = v; EXPECT(i.found() && (*i).v == v && i->v == v, "the place of the added element"); }
            break; }
          case REM: { H::Result r = t->find(k); EXPECT(r.found() == !!m.count(k), "find(%u)", k); if (!r.found()) break; t->remove(r); m.erase(k); EXPECT(Trk::killed == killed + 1, "removal destroys one element"); break; }
          case REMIF: { size_t n = m.erase(k); t->removeIfExists(k); EXPECT(Trk::killed == killed + (long)n, "removal destroys one element"); break; }
          case FIND: { char b[sizeof(H)]; memcpy(b, (void*)t, sizeof b); H::Result r = ((const H*)t)->find(k); EXPECT(r.found() == !!m.count(k), "find(%u)", k); if (r.found()) EXPECT((*r).v == m[k] && r->v == m[k], "find(%u) gave another element", k); EXPECT(!memcmp(b, (void*)t, sizeof b), "a lookup changed the table"); break; }
          case CLEAR: t->clear(); EXPECT(Trk::killed == killed + (long)m.size(), "clear destroys every element once"); m.clear(); break;
          case DENS: { long made = Trk::made; bool ok = t->checkDensity(); EXPECT(ok == (g_mem.failed == fl), "checkDensity reported %d", ok); if (g_mem.allocs > al) EXPECT(Trk::made - made == (long)m.size() && Trk::killed - killed == (long)m.size(), "a resize moves each element once"); else EXPECT(Trk::made == made && Trk::killed == killed); break; }
          case MOVE: { int tag = t->allocPolicy().tag; long made = Trk::made; char raw2[sizeof(H)]; alignas(H) static char buf[sizeof(H)]; (void)raw2; memset(buf, 0xa5, sizeof buf);
            H* n = new (buf) H(std::move(*t)); EXPECT(Trk::made == made && Trk::killed == killed && g_mem.allocs == al, "a move touches no element");
            EXPECT(n->allocPolicy().tag == tag); EXPECT(t->elements() == 0, "a moved-from table has elements"); H::iterator e(t); EXPECT(e.empty(), "a moved-from table iterates");
            same(*n, m, "after move"); t->~H(); memset(raw, 0xa5, sizeof raw); t = new (raw) H(std::move(*n)); if (nth & 1) { long f = g_mem.fails; g_mem.fails = -1; EXPECT(n->init(32) && n->elements() == 0); EXPECT(!n->find(k).found()); g_mem.fails = f; } n->~H(); break; }
          case ERASE: { Model left; size_t seen = 0; for (H::iterator i(t); !i.empty(); i.next()) { seen++; uint64_t v = (*i).v; EXPECT(m.count((uint32_t)v) && m[(uint32_t)v] == v && !left.count((uint32_t)v), "iteration gives a wrong element"); if ((v * 2654435761u >> 7 ^ k) & 1) { i.erase(); m.erase((uint32_t)v); } else left[(uint32_t)v] = v; } EXPECT(left == m, "iteration with erasure"); break; }
        }
        EXPECT(g_mem.blocks.size() == 1, "%zu storages held", g_mem.blocks.size());
    }
};
inline const char* name(int o) { static const char* n[] = {"add", "add-copy", "add-default", "findForAdd", "remove", "removeIfExists", "find", "clear", "checkDensity", "move", "erase-iterating"}; return n[o]; }
inline void history(int mode, size_t cap, int keys, const std::vector<std::pair<int, uint32_t>>& ops, long fail_at, bool check_all) {
    g_mode = mode; g_mem.fails = -1; g_mem.oom = g_mem.over = 0;
    kv::begin("hash mode %d capacity %zu, fail_at %ld:", mode, cap, fail_at);
    World w(cap); int n = 0;
    for (auto& o : ops) {
        if (o.first == REM || o.first == CLEAR || n < 400) { char b[64]; snprintf(b, sizeof b, " %s(%u)", name(o.first), o.second); kv::note(b); n++; }
        if (fail_at >= 0 && n >= fail_at) g_mem.fails = (o.second >> 3) & 1 ? 0 : -1;
        w.op(o.first, o.second % keys);
        if (check_all) same(*w.t, w.m, "after operation");
    }
    g_mem.fails = -1;
    same(*w.t, w.m, "at the end");
    for (int k = 0; k < keys; k++) w.op(FIND, k);
}
inline void run_all() {
    { for (size_t cap : {size_t(0), size_t(1), size_t(16), size_t(64)}) for (int f = 0; f < 2; f++) { kv::begin("init(%zu) %d", cap, f); g_mem.fails = f ? 0 : -1; alignas(H) char raw[sizeof(H)]; memset(raw, 0xa5, sizeof raw); H* t = new (raw) H(AP(3));
        EXPECT(t->elements() == 0); EXPECT(cap == 1 ? t->init() == !f : t->init(cap) == !f); EXPECT(t->elements() == 0); { H::iterator i(t); EXPECT(i.empty()); } t->clear(); g_mem.fails = -1; if (f) { EXPECT(t->init(16)); } t->~H(); EXPECT(g_mem.blocks.empty()); } }
    { kv::begin("init too large"); H t; long o = g_mem.over; EXPECT(!t.init(size_t(1) << 31)); EXPECT(!t.init(size_t(1) << 40) && g_mem.over == o + 2); }
    // every sequence of four operations over few keys
    for (int mode : {0, 3, 5}) for (int a = 0; a < NOPS * 2 && kv::time_left(); a++) for (int b = 0; b < NOPS * 2; b++) for (int c = 0; c < NOPS * 2; c++)
        history(mode, 0, 2, {{ADD, 0}, {ADD, 1}, {a % NOPS, uint32_t(a / NOPS)}, {b % NOPS, uint32_t(b / NOPS)}, {c % NOPS, uint32_t(c / NOPS)}}, -1, true);
    // growing, shrinking, filling with removed slots
    for (int mode = 0; mode < 5; mode++) { g_mode = mode; g_mem.fails = -1; kv::begin("mode %d: grow to 200, drop to 3, refill", mode); World w(0); for (uint32_t k = 0; k < 200; k++) w.op(ADD, k); same(*w.t, w.m, "grown"); for (uint32_t k = 3; k < 200; k++) w.op(REM, k); same(*w.t, w.m, "dropped"); for (uint32_t k = 0; k < 2000; k++) { w.op(ADD, 1000 + k); w.op(REMIF, 1000 + k); } same(*w.t, w.m, "churned"); w.op(DENS, 0); w.op(CLEAR, 0); for (int i = 0; i < 5; i++) { w.op(DENS, 0); w.op(ADD, i); } same(*w.t, w.m, "shrunk"); }
    while (kv::time_left()) {
        int keys = 1 + kv::rnd(kv::rnd(2) ? 20 : 300), n = 1 + kv::rnd(kv::rnd(3) ? 60 : 900), bias = kv::rnd(3);
        std::vector<std::pair<int, uint32_t>> ops;
        for (int i = 0; i < n; i++) { int o = kv::rnd(NOPS); if (bias == 0 && kv::rnd(3)) o = ADD; if (bias == 1 && kv::rnd(2)) o = kv::rnd(2) ? ADD : REM; if ((o == CLEAR || o == MOVE || o == ERASE) && kv::rnd(8)) o = FIND; ops.push_back({o, (uint32_t)kv::rnd(100000)}); }
        history(kv::rnd(6), kv::rnd(3) ? 0 : 16u << kv::rnd(6), keys, ops, kv::rnd(3) ? -1 : (long)kv::rnd(n), n < 100);
    }
}
// a table of huge elements reaches its greatest capacity after a few insertions
struct Huge { static const size_t S = size_t(16) << 20; uint32_t key; char fill[S - 8]; explicit Huge(uint32_t k) : key(k) {} Huge(Huge&& o) : key(o.key) {} };
struct HPol { typedef Huge Payload; static uint32_t hash(uint32_t k) { return k; } static bool matches(uint32_t k, const Huge& h) { return h.key == k; } };
inline long g_held;
struct HAP : ke::SystemAllocatorPolicy { bool over = false; void reportAllocationOverflow() { over = true; } void* am_malloc(size_t n) { g_held++; return malloc(n); } void am_free(void* p) { if (p) g_held--; free(p); } };
inline void huge() {
    kv::begin("a table of 16 MB elements at its greatest capacity");
    ke::HashTable<HPol, HAP> t; EXPECT(t.init());
    uint32_t n = 0;
    for (; n < 200; n++) { auto i = t.findForAdd(n); EXPECT(!i.found()); if (!t.add(i, n)) break; }
    EXPECT(n < 200 && t.allocPolicy().over && t.elements() == n, "added %u", n);
    for (uint32_t k = 0; k < 200; k++) { auto r = t.find(k); EXPECT(r.found() == (k < n)); if (r.found()) EXPECT(r->key == k); }
    auto r = t.find(0); t.remove(r); EXPECT(t.elements() == n - 1 && !t.find(0).found()); EXPECT(g_held == 1);
}
} // namespace ht
