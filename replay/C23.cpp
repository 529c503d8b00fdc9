// FLAGS: -fno-sanitize=vptr
#include "track.h"
#include <amtl/am-raii.h>
#include <memory>
#include <new>
using namespace ke;
struct Pad { uint64_t pad = 1; };
struct Node : Pad, StackLinked<Node> { Node(Node** p) : StackLinked<Node>(p) {} };
static std::vector<uint64_t> g_calls;
struct Cb { Trk t; explicit Cb(uint64_t v) : t(v) {} Cb(const Cb&) = default; Cb(Cb&&) = default; void operator()() { t.check(); g_calls.push_back(t.v); } };
static void link(Node** head, int depth) {
    Node* prev = *head;
    { Node n(head); EXPECT(*head == &n, "a linked object is the head"); if (depth) link(head, depth - 1); EXPECT(*head == &n, "inner objects restore the head"); if (depth) link(head, depth - 1); EXPECT(*head == &n); }
    EXPECT(*head == prev, "the previous head is restored");
}
template <typename T, typename F> static void save(F mk) {
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 4; c++) {
        kv::begin("SaveAndSet old=%d new=%d meanwhile=%d", a, b, c);
        T loc(mk(a)); T nv(mk(b));
        { SaveAndSet<T> s(&loc, nv); EXPECT(loc == mk(b), "the new value is installed at once"); EXPECT(nv == mk(b));
          if (c < 3) { loc = mk(c); SaveAndSet<T> s2(&loc, mk(c + 1)); EXPECT(loc == mk(c + 1)); } if (c < 3) EXPECT(loc == mk(c), "the inner guard restores"); }
        EXPECT(loc == mk(a), "the old value is back");
        { SaveAndSet<T> s(&loc, loc); EXPECT(loc == mk(a)); loc = mk(b); }
        EXPECT(loc == mk(a), "the old value is back");
    }
}
template <typename G, typename M> static void guards(M mk, const char* what) {
    // script: 0 move, 1 cancel current, 2 cancel a moved-from one, 3 end a moved-from one
    for (int s = 0; s < 4 * 4 * 4 * 4; s++) {
        kv::begin("ScopeGuard (%s) script %d", what, s);
        g_calls.clear();
        std::vector<G*> g; bool cancelled = false;
        uint64_t id = 100 + s; Cb named(id);
        g.push_back(mk(named));
        EXPECT(g_calls.empty(), "nothing runs early");
        for (int k = 0, x = s; k < 4; k++, x /= 4) {
            if (x % 4 == 0) { G* n = new G(std::move(*g.back())); g.push_back(n); }
            else if (x % 4 == 1) { g.back()->cancel(); cancelled = true; }
            else if (x % 4 == 2) { if (g.size() > 1) g[0]->cancel(); }
            else if (g.size() > 1) { delete g[0]; g.erase(g.begin()); }
            EXPECT(g_calls.empty(), "nothing runs before the last live guard ends");
        }
        bool fwd = kv::rnd(2);
        if (!fwd) std::reverse(g.begin(), g.end());
        for (G* x : g) delete x;
        EXPECT(g_calls.size() == (cancelled ? 0u : 1u), "the callback ran %zu times", g_calls.size());
        if (!cancelled) EXPECT(g_calls[0] == id, "it is the callback given");
    }
    EXPECT(Trk::count() == 0, "%zu callbacks left", Trk::count());
}
template <typename T> static T rav(T& t) { return ReturnAndVoid(t); }
void kv_main() {
    save<Trk>([](int i) { return Trk(i); });
    EXPECT(Trk::count() == 0);
    save<int>([](int i) { return i; });
    save<std::string>([](int i) { return std::string(i * 20, 'x'); });
    save<double>([](int i) { return i * 0.5; });
    for (int d = 0; d < 5; d++) { kv::begin("StackLinked depth %d", d); Node* head = nullptr; link(&head, d); Node first(&head); link(&head, d); EXPECT(head == &first); }
    guards<ScopeGuard<Cb>>([](Cb& c) { return new ScopeGuard<Cb>(Cb(c)); }, "constructed");
    guards<ScopeGuard<Cb>>([](Cb& c) { return new ScopeGuard<Cb>(MakeScopeGuard(Cb(c))); }, "made");
    guards<ScopeGuard<Cb&>>([](Cb& c) { return new ScopeGuard<Cb&>(MakeScopeGuard(c)); }, "made on a named callback");
    kv::begin("ReturnAndVoid");
    { Trk t(5); Trk r(ReturnAndVoid(t)); EXPECT(r.v == 5 && t.v == Trk::DEF); int x = 0; int* p = &x; EXPECT(ReturnAndVoid(p) == &x && !p); int i = 7; EXPECT(ReturnAndVoid(i) == 7 && i == 0);
      std::string s("hello"); EXPECT(ReturnAndVoid(s) == "hello" && s.empty()); bool b = true; EXPECT(ReturnAndVoid(b) && !b); }
    EXPECT(Trk::count() == 0);
}
