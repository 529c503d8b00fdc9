#include "track.h"
#include <map>
#include <memory>
#include <vector>
#include <amtl/am-priority-queue.h>
// strict weak orderings with and without ties, in either direction
struct Hp { int mode; Hp(int m = 3) : mode(m) {} uint64_t rank(uint64_t v) const { switch (mode) { case 0: return v; case 1: return ~v; case 2: return v % 3; case 3: return v >> 2; case 4: return 0; default: return (v * 0x9e3779b97f4a7c15ull) >> 58; } }
    bool operator()(const Trk& a, const Trk& b) const { a.check(); b.check(); return rank(a.v) < rank(b.v); }
    bool operator()(const std::unique_ptr<uint64_t>& a, const std::unique_ptr<uint64_t>& b) const { EXPECT(a && b, "comparison of a moved-from element"); return rank(*a) < rank(*b); } };
typedef std::map<uint64_t, size_t> Bag;
static void history(int mode, const std::vector<int>& ops, uint64_t range) {
    kv::begin("ordering %d:", mode); Hp hp(mode);
    { ke::PriorityQueue<Trk, Hp> q(hp), *p = &q; alignas(8) static char raw[sizeof(ke::PriorityQueue<Trk, Hp>)]; bool moved = false; ke::PriorityQueue<std::unique_ptr<uint64_t>, Hp> u(hp); Bag b; size_t n = 0;
      auto first = [&](uint64_t v) { for (auto& e : b) if (e.second) EXPECT(!(hp.rank(e.first) < hp.rank(v)), "%llu served while %llu is queued", (unsigned long long)v, (unsigned long long)e.first); EXPECT(b.count(v) && b[v], "%llu is not queued", (unsigned long long)v); };
      for (int op : ops) {
        uint64_t x = kv::rnd(range); char t[40]; snprintf(t, sizeof t, " %d(%llu)", op, (unsigned long long)x); kv::note(t);
        if (op < 4) { Trk a(x); if (op == 0) p->add(std::move(a)); else if (op == 1) { p->add((const Trk&)a); EXPECT(a.v == x, "argument changed"); } else if (op == 2) { p->add(a); EXPECT(a.v == x, "argument changed"); } else p->emplace(x);
            u.add(std::unique_ptr<uint64_t>(new uint64_t(x))); b[x]++; n++; }
        else if (op == 4 && n) { first(p->peek().v); { Trk r = p->pop(); first(r.v); auto m = u.pop(); EXPECT(m, "a moved-from element was served"); first(*m); EXPECT(hp.rank(*m) == hp.rank(r.v)); if (*m != r.v) { u.add(std::move(m)); /* ties: keep the two in step by content */ std::vector<std::unique_ptr<uint64_t>> all; while (!u.empty()) all.push_back(u.pop()); bool out = false; for (auto& e : all) if (!out && *e == r.v) out = true; else u.add(std::move(e)); EXPECT(out); } b[r.v]--; n--; } }
        else if (op == 5 && !moved) { p = new (raw) ke::PriorityQueue<Trk, Hp>(std::move(q)); moved = true; EXPECT(q.empty(), "moved-from queue"); }
        EXPECT(p->empty() == !n && u.empty() == !n, "empty"); EXPECT(Trk::count() == n, "%zu elements alive, %zu queued", Trk::count(), n);
        if (n) first(p->peek().v); }
      uint64_t last = 0; while (n) { Trk r = p->pop(); first(r.v); EXPECT(hp.rank(r.v) >= last, "order"); last = hp.rank(r.v); b[r.v]--; n--; EXPECT(p->empty() == !n); }
      if (moved) p->~PriorityQueue(); }
    EXPECT(Trk::count() == 0, "elements left");
}
void kv_main() {
    { kv::begin("default ordering"); ke::PriorityQueue<int> q; ke::PriorityQueue<Trk, Hp> d; for (int i : {5, 3, 9, 3, 1, 7, 8, 2}) { q.add(i); d.emplace((uint64_t)i * 4); } int l = -1; while (!q.empty()) { int x = q.pop(); EXPECT(x >= l); l = x; } uint64_t m = 0; while (!d.empty()) { Trk t = d.pop(); EXPECT(t.v / 4 >= m); m = t.v / 4; } }
    for (size_t n = 1; n < 9; n++) for (int mode = 0; mode < 6; mode++) for (int t = 0; t < 20; t++) { std::vector<int> o; for (size_t i = 0; i < n; i++) o.push_back(kv::rnd(4)); for (size_t i = 0; i < n; i++) o.push_back(4); history(mode, o, 12); }
    while (kv::time_left()) { size_t n = kv::rnd(kv::rnd(4) ? 40 : 300); std::vector<int> o; int up = kv::rnd(4); for (size_t i = 0; i < n; i++) o.push_back((int)kv::rnd(4) <= up ? kv::rnd(4) : kv::rnd(15) ? 4 : 5); history(kv::rnd(6), o, kv::rnd(2) ? 8 : 1000); }
}
