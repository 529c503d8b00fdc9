#include "track.h"
#include <memory>
#include <vector>
#include <deque>
#include <amtl/am-vector.h>
#include <amtl/am-deque.h>
typedef std::vector<Trk> V; typedef std::vector<uint64_t> W; typedef std::deque<Trk> D;
static W make(V& v, size_t n, uint64_t& nth) { W w; if (kv::rnd(3)) v.reserve(n + kv::rnd(4)); for (size_t i = 0; i < n; i++) { uint64_t x = kv::rnd(3) ? nth++ : kv::rnd(5); v.emplace_back(x); w.push_back(x); } return w; }
template <typename C> static void same(const C& v, const W& w, const char* what) { EXPECT(v.size() == w.size(), "%s: %zu elements, expected %zu", what, v.size(), w.size()); for (size_t i = 0; i < w.size(); i++) { v[i].check(); EXPECT(v[i].v == w[i], "%s: element %zu", what, i); } }
static void one(size_t n, size_t m, size_t at) {
    uint64_t nth = 1000;
    for (int op = 0; op < 12; op++) {
        kv::begin("operation %d, %zu elements, at %zu, %zu others", op, n, at, m);
        { V v, o; W w = make(v, n, nth), x = make(o, m, nth); Trk t(77); D d; for (auto e : w) d.emplace_back(e);
          if (op == 0 && n) { Trk r = ke::PopBack(&v); EXPECT(r.v == w.back(), "PopBack value"); w.pop_back(); }
          if (op == 1 && at < n) { ke::RemoveAt(&v, at); w.erase(w.begin() + at); }
          if (op == 2) { ke::InsertAt(&v, at, (const Trk&)t); EXPECT(t.v == 77, "argument changed"); w.insert(w.begin() + at, 77); }
          if (op == 3) { ke::InsertAt(&v, at, std::move(t)); w.insert(w.begin() + at, 77); }
          if (op == 4) { ke::EmplaceAt(&v, at, (uint64_t)77); w.insert(w.begin() + at, 77); }
          if (op == 5) { ke::EmplaceAt(&v, at, (const Trk&)t); EXPECT(t.v == 77); w.insert(w.begin() + at, 77); }
          if (op == 6) { ke::EmplaceAt(&v, at, std::move(t)); w.insert(w.begin() + at, 77); }
          if (op == 7) { size_t cap = v.capacity(); ke::MoveExtend(&v, &o); w.insert(w.end(), x.begin(), x.end()); x.clear(); EXPECT(o.empty(), "the source has %zu elements left", o.size()); (void)cap; }
          if (op == 8) { uint64_t mod = 1 + kv::rnd(4), r = kv::rnd(4); ke::EraseIf(&v, [=](const Trk& e) { e.check(); return e.v % mod == r % mod; }); W y; for (auto e : w) if (e % mod != r % mod) y.push_back(e); w = y; }
          if (op == 9 && n) { Trk r = ke::PopBack(&d); EXPECT(r.v == w.back()); W y = w; y.pop_back(); same(d, y, "deque"); }
          if (op == 10 && n) { Trk r = ke::PopFront(&d); EXPECT(r.v == w.front()); W y = w; y.erase(y.begin()); same(d, y, "deque"); }
          if (op == 11 && at < n) { ke::InsertAt(&v, kv::rnd(n + 1), (const Trk&)v[at]); EXPECT(v.size() == n + 1); w = W(); for (auto& e : v) w.push_back(e.v); }
          same(v, w, "after"); same(o, x, "source"); EXPECT(Trk::count() == v.size() + o.size() + d.size() + 1, "elements alive"); }
        EXPECT(Trk::count() == 0, "elements left");
    }
    // elements that can only be moved
    kv::begin("move-only elements, %zu and %zu", n, m);
    typedef std::unique_ptr<uint64_t> U; std::vector<U> a, b; W w;
    for (size_t i = 0; i < n; i++) { a.emplace_back(new uint64_t(i)); w.push_back(i); } for (size_t i = 0; i < m; i++) { b.emplace_back(new uint64_t(100 + i)); w.push_back(100 + i); }
    ke::MoveExtend(&a, &b); EXPECT(b.empty() && a.size() == w.size()); ke::InsertAt(&a, at, U(new uint64_t(7))); w.insert(w.begin() + at, 7); ke::EmplaceAt(&a, at, new uint64_t(8)); w.insert(w.begin() + at, 8);
    ke::RemoveAt(&a, at); w.erase(w.begin() + at); U l = ke::PopBack(&a); EXPECT(l && *l == w.back()); w.pop_back(); ke::EraseIf(&a, [](const U& u) { return *u % 3 == 1; }); W y; for (auto e : w) if (e % 3 != 1) y.push_back(e);
    EXPECT(a.size() == y.size()); for (size_t i = 0; i < y.size(); i++) EXPECT(a[i] && *a[i] == y[i], "element %zu", i);
}
void kv_main() {
    for (size_t n = 0; n < 7; n++) for (size_t m = 0; m < 5; m++) for (size_t at = 0; at <= n; at++) one(n, m, at);
    while (kv::time_left()) { size_t n = kv::rnd(kv::rnd(5) ? 20 : 600); one(n, kv::rnd(kv::rnd(5) ? 20 : 600), kv::rnd(n + 1)); }
}
