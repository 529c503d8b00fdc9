#include "htn.h"
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
using namespace ht;
struct MP_ { static uint32_t hash(const uint32_t& k) { return hash_of(k); } static bool matches(const uint32_t& k, const Trk& t) { t.check(); return (uint32_t)t.v == k; }
    static uint32_t hash(const Trk& k) { k.check(); return hash_of((uint32_t)k.v); } static bool matches(const Trk& k, const Trk& t) { k.check(); t.check(); return (uint32_t)t.v == (uint32_t)k.v; } };
typedef ke::HashMap<Trk, Trk, MP_, AP> M; typedef ke::HashSet<Trk, MP_, AP> S;
static void same(M& m, const Model& w, const char* when) {
    EXPECT(m.elements() == w.size(), "%s: count", when); EXPECT(Trk::count() == 2 * w.size(), "%s: %zu elements alive, %zu entries", when, Trk::count(), w.size());
    Model seen; for (M::iterator i = m.iter(); !i.empty(); i.next()) { EXPECT((uint32_t)i->key.v == i->key.v); EXPECT(seen.emplace((uint32_t)i->key.v, i->value.v).second, "%s: visited twice", when); } EXPECT(seen == w, "%s: contents", when);
    const M& c = m; for (auto& e : w) { auto r = c.find(e.first); EXPECT(r.found() && (uint32_t)r->key.v == e.first && (*r).value.v == e.second, "%s: key %u", when, e.first); }
}
static void same(S& m, const std::set<uint32_t>& w, const char* when) {
    EXPECT(m.elements() == w.size(), "%s: count", when); EXPECT(Trk::count() == w.size(), "%s: elements alive", when);
    std::set<uint32_t> seen; for (S::iterator i = m.iter(); !i.empty(); i.next()) EXPECT(seen.insert((uint32_t)i->v).second, "%s: visited twice", when); EXPECT(seen == w, "%s: contents", when);
    for (auto e : w) { auto r = m.find(e); EXPECT(r.found() && (uint32_t)(*r).v == e, "%s: key %u", when, e); EXPECT(m.has(e)); }
}
static void map_history(int mode, int n, int keys, bool check, long fail) {
    g_mode = mode; g_mem.fails = -1; kv::begin("map, hash mode %d:", mode); long nth = 1;
    { alignas(M) static char raw[2][sizeof(M)]; int at = 0; memset(raw, 0xa5, sizeof raw); M* m = new (raw[0]) M(AP(77)); EXPECT(m->allocPolicy().tag == 77 && ((const M*)m)->allocPolicy().tag == 77, "allocator"); EXPECT(m->elements() == 0);
      EXPECT(kv::rnd(2) ? m->init() : m->init(kv::rnd(2) ? 16 : 64)); Model w; EXPECT(m->estimateMemoryUse() == g_mem.blocks.begin()->second);
      for (int q = 0; q < n; q++) {
        uint32_t k = kv::rnd(keys); uint64_t v = (uint64_t)nth++ << 8; int op = kv::rnd(14); char b[40]; snprintf(b, sizeof b, " %d(%u)", op, k); kv::note(b);
        if (fail >= 0) g_mem.fails = q >= fail && kv::rnd(2) ? 0 : -1; long fl = g_mem.failed;
        if (op < 8) { auto i = m->findForAdd(k); EXPECT(i.found() == !!w.count(k)); if (i.found()) { EXPECT(i->value.v == w[k]); } else { bool ok; uint64_t want = v;
            { Trk tk(k), tv(v); switch (op) { case 0: ok = m->add(i, std::move(tk), std::move(tv)); break; case 1: ok = m->add(i, tk, tv); EXPECT(tk.v == k && tv.v == v, "argument changed"); break; case 2: ok = m->add(i, tk, std::move(tv)); EXPECT(tk.v == k); break; case 3: ok = m->add(i, std::move(tk)); want = Trk::DEF; break; case 4: ok = m->add(i, tk); EXPECT(tk.v == k); want = Trk::DEF; break; case 5: ok = m->add(i, (const Trk&)tk, (const Trk&)tv); break; default: ok = m->add(i); if (ok) { EXPECT(i->key.v == Trk::DEF && i->value.v == Trk::DEF); i->key = Trk(k); i->value = Trk(v); } } }
            EXPECT(ok == (fl == g_mem.failed), "add reported %d", ok); if (ok) { w[k] = want; EXPECT(i.found() && i->key.v == k && i->value.v == want, "added entry"); } } }
        else if (op < 10) { m->removeIfExists(k); w.erase(k); }
        else if (op == 10) { auto r = m->find(k); EXPECT(r.found() == !!w.count(k)); if (r.found()) { m->remove(r); w.erase(k); } }
        else if (op == 11 && !kv::rnd(4)) { m->clear(); w.clear(); }
        else if (op == 12 && !kv::rnd(4)) { memset(raw[!at], 0xa5, sizeof(M)); M* t = new (raw[!at]) M(std::move(*m)); EXPECT(m->elements() == 0 && m->iter().empty(), "source of a move"); EXPECT(t->allocPolicy().tag == 77); m->~M(); m = t; at = !at; }
        else if (op == 13 && !kv::rnd(4)) { for (M::iterator i = m->iter(); !i.empty(); i.next()) if ((uint32_t)i->key.v % 2) { w.erase((uint32_t)i->key.v); i.erase(); } }
        if (check) same(*m, w, "after an operation"); }
      g_mem.fails = -1; same(*m, w, "at the end"); for (int k = 0; k < keys; k++) EXPECT(m->find((uint32_t)k).found() == !!w.count(k)); m->~M(); }
    EXPECT(Trk::count() == 0 && g_mem.blocks.empty(), "left after destruction");
}
static void set_history(int mode, int n, int keys, bool check, long fail) {
    g_mode = mode; g_mem.fails = -1; kv::begin("set, hash mode %d:", mode);
    { alignas(S) static char raw[2][sizeof(S)]; int at = 0; memset(raw, 0xa5, sizeof raw); S* m = new (raw[0]) S(AP(78)); EXPECT(m->allocPolicy().tag == 78 && ((const S*)m)->allocPolicy().tag == 78, "allocator"); EXPECT(m->elements() == 0); EXPECT(kv::rnd(2) ? m->init() : m->init(kv::rnd(2) ? 16 : 64)); std::set<uint32_t> w;
      for (int q = 0; q < n; q++) {
        uint32_t k = kv::rnd(keys); int op = kv::rnd(14); char b[40]; snprintf(b, sizeof b, " %d(%u)", op, k); kv::note(b);
        if (fail >= 0) g_mem.fails = q >= fail && kv::rnd(2) ? 0 : -1; long fl = g_mem.failed;
        if (op < 4) { Trk x(k); long cp = Trk::copies + Trk::moves; bool was = w.count(k); if (op & 1) m->add(std::move(x)); else m->add(x); if (was) EXPECT(Trk::copies + Trk::moves == cp && x.v == k, "adding a present key changed something"); if (!(op & 1)) EXPECT(x.v == k); if (fl == g_mem.failed) w.insert(k); }
        else if (op < 8) { auto i = m->findForAdd(k); EXPECT(i.found() == !!w.count(k)); if (!i.found()) { Trk x(k); bool ok = op == 4 ? m->add(i, x) : op == 5 ? m->add(i, std::move(x)) : m->add(i); if (op == 4) EXPECT(x.v == k); EXPECT(ok == (fl == g_mem.failed)); if (ok) { if (op > 5) *i = Trk(k); w.insert(k); EXPECT(i.found() && i->v == k); } } }
        else if (op < 10) { m->removeIfExists(k); w.erase(k); }
        else if (op == 10) { auto r = m->find(k); EXPECT(r.found() == !!w.count(k)); if (r.found()) { m->remove(r); w.erase(k); } }
        else if (op == 11 && !kv::rnd(4)) { m->clear(); w.clear(); }
        else if (op == 12 && !kv::rnd(4)) { memset(raw[!at], 0xa5, sizeof(S)); S* t = new (raw[!at]) S(std::move(*m)); EXPECT(m->elements() == 0 && m->iter().empty(), "source of a move"); EXPECT(t->allocPolicy().tag == 78); m->~S(); m = t; at = !at; }
        if (check) same(*m, w, "after an operation"); EXPECT(m->has(k) == !!w.count(k), "has(%u)", k); }
      g_mem.fails = -1; same(*m, w, "at the end"); for (int k = 0; k < keys; k++) EXPECT(m->has((uint32_t)k) == !!w.count(k)); m->~S(); }
    EXPECT(Trk::count() == 0 && g_mem.blocks.empty(), "left after destruction");
}
void kv_main() {
    for (int f = 0; f < 2; f++) { kv::begin("init"); g_mem.fails = f ? 0 : -1; { M m(AP(5)); EXPECT(m.init() == !f); S s(AP(6)); EXPECT(s.init(32) == !f); g_mem.fails = -1; } EXPECT(g_mem.blocks.empty()); }
    while (kv::time_left()) { int n = 1 + kv::rnd(kv::rnd(4) ? 30 : 700), k = 1 + kv::rnd(kv::rnd(3) ? 10 : 200); long f = kv::rnd(3) ? -1 : (long)kv::rnd(n); map_history(kv::rnd(6), n, k, n < 50, f); set_history(kv::rnd(6), n, k, n < 50, f); }
}
