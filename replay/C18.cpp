#include "track.h"
#include <amtl/am-refcounting.h>
using namespace ke;
struct Node;
static std::unordered_map<const void*, int> g_alive;
static long g_dead;
struct Node : Refcounted<Node> {
    int id; RefPtr<Node> next;
    explicit Node(int i) : id(i) { g_alive[this] = 1; }
    ~Node() { if (!g_alive.erase(this)) kv::fail("object destroyed twice"); g_dead++; }
};
struct Pad { uint64_t pad = 5; };
struct VNode : Pad, VirtualRefcounted { int id; explicit VNode(int i) : id(i) { g_alive[static_cast<VirtualRefcounted*>(this)] = 1; } ~VNode() { if (!g_alive.erase(static_cast<VirtualRefcounted*>(this))) kv::fail("object destroyed twice"); } };
struct Fwd : IRefcounted, Refcounted<Fwd> { Fwd() { g_alive[this] = 1; } ~Fwd() { if (!g_alive.erase(this)) kv::fail("destroyed twice"); } KE_IMPL_REFCOUNTING(Fwd) };
template <typename T> static bool alive(T* p) { return g_alive.count(static_cast<const void*>(p)); }
// an object whose count can be read
struct Cnt {
    int n = 0; static inline std::vector<Cnt*> all; int held = 0;
    void AddRef() { if (n < 0) kv::fail("AddRef on a dead object"); n++; }
    void Release() { if (n <= 0) kv::fail("Release without a reference"); if (--n == 0) n = -1; }
};
struct CPad { int x; };
struct CDer : CPad, Cnt {};
// slots: 3 RefPtr<Cnt>, 2 RefPtr<CDer>, 3 AlreadyRefed<Cnt>, 1 AlreadyRefed<CDer>
typedef RefPtr<Cnt> P; typedef RefPtr<CDer> PD; typedef AlreadyRefed<Cnt> R; typedef AlreadyRefed<CDer> RD;
struct World {
    Cnt a, b; CDer d; Cnt* o[4];
    P* p[3]; PD* q[2]; R* r[3]; RD* rd;
    int hp[3] = {0, 0, 0}, hq[2] = {0, 0}, hr[3] = {0, 0, 0}, hrd = 0;
    int ext[4] = {0, 1, 1, 1};
    World() { o[0] = nullptr; o[1] = &a; o[2] = &b; o[3] = &d; for (int i = 1; i < 4; i++) o[i]->AddRef();
        for (auto& x : p) x = new P(); for (auto& x : q) x = new PD(); for (auto& x : r) x = new R(nullptr); rd = new RD(nullptr); }
    CDer* der(int i) { return i ? &d : nullptr; }
    void verify() {
        int n[4] = {0, 0, 0, 0};
        for (int i = 0; i < 4; i++) n[i] = ext[i];
        for (int i = 0; i < 3; i++) { n[hp[i]]++; EXPECT(p[i]->get() == o[hp[i]], "RefPtr %d", i);
            EXPECT(**p[i] == o[hp[i]] && p[i]->operator->() == o[hp[i]] && (Cnt*)*p[i] == o[hp[i]] && !*p[i] == !hp[i] && bool(*p[i]) == !!hp[i] && *p[i]->byref() == o[hp[i]] && *p[i]->byref_const() == o[hp[i]] && *p[i]->address() == o[hp[i]]); }
        for (int i = 0; i < 2; i++) { n[hq[i]]++; EXPECT(q[i]->get() == der(hq[i])); }
        for (int i = 0; i < 3; i++) { n[hr[i]]++; EXPECT(r[i]->operator->() == o[hr[i]] && !*r[i] == !hr[i]); EXPECT(*r[i] == o[hr[i]] && !(*r[i] != o[hr[i]])); }
        n[hrd]++;  EXPECT(rd->operator->() == der(hrd));
        for (int i = 1; i < 4; i++) EXPECT((o[i]->n == -1 ? 0 : o[i]->n) == n[i], "object %d has count %d, %d references exist", i, o[i]->n, n[i]);
    }
};
static void apply(World& w, int op, int i, int j) {
    int i3 = i % 3, j3 = j % 3, j2 = j % 2, k = j % 4;
    char b[80]; static const char* nm[] = {"p=raw", "p=p", "p=move(p)", "p=q", "p=move(q)", "p=r", "p=rd", "p=take", "p=null", "p(p)", "p(move p)", "p(q)", "p(move q)", "p(r)", "p(rd)", "r(p.take)", "r(p.forget)", "r(r)", "r(move r)", "r.take", "q=raw", "r=adopt", "rd=adopt", "p=rawd", "p=p(raw)"};
    snprintf(b, sizeof b, "%s %d %d; ", nm[op], i, j); kv::note(b);
    auto live = [&](int x) { return !x || w.o[x]->n >= 0; };
    switch (op) {
        case 0: if (live(k)) { *w.p[i3] = w.o[k]; w.hp[i3] = k; } break;
        case 1: *w.p[i3] = (const P&)*w.p[j3]; w.hp[i3] = w.hp[j3]; break;
        case 2: *w.p[i3] = std::move(*w.p[j3]); if (i3 != j3) { w.hp[i3] = w.hp[j3]; w.hp[j3] = 0; } break;
        case 3: *w.p[i3] = *w.q[j2]; w.hp[i3] = w.hq[j2]; break;
        case 4: *w.p[i3] = std::move(*w.q[j2]); w.hp[i3] = w.hq[j2]; w.hq[j2] = 0; break;
        case 5: *w.p[i3] = *w.r[j3]; w.hp[i3] = w.hr[j3]; w.hr[j3] = 0; break;
        case 6: *w.p[i3] = *w.rd; w.hp[i3] = w.hrd; w.hrd = 0; break;
        case 7: *w.p[i3] = w.p[j3]->take(); if (i3 != j3) { w.hp[i3] = w.hp[j3]; w.hp[j3] = 0; } break;
        case 8: *w.p[i3] = nullptr; w.hp[i3] = 0; break;
        case 9: { P* x = new P(*w.p[j3]); delete w.p[i3]; w.p[i3] = x; w.hp[i3] = w.hp[j3]; break; }
        case 10: if (i3 != j3) { delete w.p[i3]; w.p[i3] = new P(std::move(*w.p[j3])); w.hp[i3] = w.hp[j3]; w.hp[j3] = 0; } break;
        case 11: delete w.p[i3]; w.p[i3] = new P(*w.q[j2]); w.hp[i3] = w.hq[j2]; break;
        case 12: delete w.p[i3]; w.p[i3] = new P(std::move(*w.q[j2])); w.hp[i3] = w.hq[j2]; w.hq[j2] = 0; break;
        case 13: delete w.p[i3]; w.p[i3] = new P(*w.r[j3]); w.hp[i3] = w.hr[j3]; w.hr[j3] = 0; break;
        case 14: delete w.p[i3]; w.p[i3] = new P(*w.rd); w.hp[i3] = w.hrd; w.hrd = 0; break;
        case 15: delete w.r[i3]; w.r[i3] = new R(w.p[j3]->take()); w.hr[i3] = w.hp[j3]; w.hp[j3] = 0; break;
        case 16: delete w.r[i3]; w.r[i3] = new R(w.p[j3]->forget()); w.hr[i3] = w.hp[j3]; w.hp[j3] = 0; break;
        case 17: { R* x = new R((const R&)*w.r[j3]); delete w.r[i3]; w.r[i3] = x; w.hr[i3] = w.hr[j3]; break; }
        case 18: if (i3 != j3) { delete w.r[i3]; w.r[i3] = new R(std::move(*w.r[j3])); w.hr[i3] = w.hr[j3]; w.hr[j3] = 0; } break;
        case 19: { Cnt* t = w.r[i3]->take(); EXPECT(t == w.o[w.hr[i3]]); w.ext[w.hr[i3]]++; w.hr[i3] = 0; break; }
        case 20: if (live(3)) { *w.q[i % 2] = w.der(k & 1); w.hq[i % 2] = (k & 1) ? 3 : 0; } break;
        case 21: if (live(k)) { if (k) w.o[k]->AddRef(); delete w.r[i3]; w.r[i3] = new R(AdoptRef(w.o[k])); w.hr[i3] = k; } break;
        case 22: if (live(3)) { if (k & 1) w.d.AddRef(); delete w.rd; w.rd = new RD(AdoptRef(w.der(k & 1))); w.hrd = (k & 1) ? 3 : 0; } break;
        case 23: if (live(3)) { *w.p[i3] = w.der(k & 1); w.hp[i3] = (k & 1) ? 3 : 0; } break;
        case 24: if (live(k)) { *w.p[i3] = P(w.o[k]); w.hp[i3] = k; } break;
    }
    w.verify();
}
static const int NOPS = 25;
static void run(const std::vector<int>& v) {
    kv::begin("smart pointers: ");
    World w; w.verify();
    for (int x : v) apply(w, x / 12, x / 4 % 3, x % 4);
    // references held elsewhere go away first
    for (int i = 1; i < 4; i++) while (w.ext[i]) { w.ext[i]--; w.o[i]->Release(); }
    w.verify();
    kv::note("destroy holders");
    for (int i = 0; i < 3; i++) { delete w.p[i]; delete w.r[i]; if (i < 2) delete w.q[i]; }
    delete w.rd;
    for (int i = 1; i < 4; i++) EXPECT(w.o[i]->n == -1, "object %d keeps count %d", i, w.o[i]->n);
}
void kv_main() {
    kv::begin("counted bases");
    { RefPtr<Node> p = new Node(1); p->next = new Node(2); p->next->next = new Node(3); EXPECT(g_alive.size() == 3);
      p = p->next; EXPECT(p->id == 2 && g_alive.size() == 2); p = p->next.take(); EXPECT(p->id == 3 && g_alive.size() == 1); p = nullptr; EXPECT(g_alive.empty()); }
    { RefPtr<Node> p = new Node(1); p->next = new Node(2); p = std::move(p->next); EXPECT(p->id == 2 && g_alive.size() == 1); p->next = p; p = p->next; Node* n = p; EXPECT(alive(n)); p->next = nullptr; EXPECT(alive(n)); p = p; EXPECT(alive(n)); p = p.get(); EXPECT(alive(n)); p = std::move(p); EXPECT(p && alive(n)); }
    EXPECT(g_alive.empty());
    { RefPtr<Node> p = new Node(1); p->next = new Node(2); p = p->next.get(); EXPECT(p->id == 2 && g_alive.size() == 1); }
    EXPECT(g_alive.empty());
    { Node* n = new Node(1); delete n; n = new Node(2); for (int i = 0; i < 1000; i++) n->AddRef(); for (int i = 0; i < 999; i++) { n->Release(); EXPECT(alive(n)); } n->Release(); EXPECT(g_alive.empty()); }
    { VNode* n = new VNode(1); VirtualRefcounted* v = n; delete n; n = new VNode(2); v = n; for (int i = 0; i < 1000; i++) v->AddRef(); for (int i = 0; i < 999; i++) { n->Release(); EXPECT(alive(v)); } v->Release(); EXPECT(g_alive.empty()); }
    { RefPtr<VNode> p = new VNode(3); RefPtr<VirtualRefcounted> b = p; RefPtr<IRefcounted> c = std::move(p); EXPECT(!p && g_alive.size() == 1); b = nullptr; EXPECT(g_alive.size() == 1); c = nullptr; EXPECT(g_alive.empty()); }
    { RefPtr<IRefcounted> p = new Fwd(); RefPtr<IRefcounted> q = p; p = nullptr; EXPECT(g_alive.size() == 1); q = nullptr; EXPECT(g_alive.empty()); }
    for (int a = 0; a < NOPS * 12; a++) { run({a}); for (int b = 0; b < NOPS * 12; b++) run({a, b}); }
    while (kv::time_left()) for (int i = 0; i < 100; i++) {
        std::vector<int> v;
        for (int n = 3 + kv::rnd(14); n; n--) v.push_back(kv::rnd(NOPS * 12));
        run(v);
    }
}
