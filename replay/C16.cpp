#include "track.h"
#include <amtl/am-fixedarray.h>
using namespace ke;
// a policy that can be told to fail and counts its blocks
struct Mem { static inline std::unordered_map<void*, size_t> blocks; static inline bool fail; static inline long overflow, oom, allocs; };
class AP {
  public:
    void reportOutOfMemory() { Mem::oom++; }
    void reportAllocationOverflow() { Mem::overflow++; }
    void* am_malloc(size_t n) {
        Mem::allocs++;
        if (Mem::fail || n > (1u << 20)) return nullptr;
        void* p = malloc(n ? n : 1); memset(p, 0xa5, n); Mem::blocks[p] = n; return p;
    }
    void am_free(void* p) {
        if (!p) return;
        auto it = Mem::blocks.find(p);
        if (it == Mem::blocks.end()) kv::fail("storage released that is not allocated");
        for (auto& kvp : Trk::live())
            if ((const char*)kvp.first >= (char*)p && (const char*)kvp.first < (char*)p + it->second) kv::fail("storage released with live elements in it");
        Mem::blocks.erase(it); free(p);
    }
};
typedef FixedArray<Trk, AP> A;
static const int N = 3;
struct World { alignas(A) char raw[N][sizeof(A)]; A* a[N]; bool failed[N]; std::vector<uint64_t> v[N]; uint64_t next = 100; };
static void fill(World& w, int i) { for (size_t k = 0; k < w.a[i]->size(); k++) { w.v[i][k] = w.next++; (*w.a[i])[k].v = w.v[i][k]; } }
static void verify(World& w) {
    size_t n = 0;
    for (int i = 0; i < N; i++) {
        A& a = *w.a[i]; const A& c = a;
        EXPECT(a.initialize() == !w.failed[i], "a%d", i);
        if (w.failed[i]) continue;
        EXPECT(c.size() == w.v[i].size(), "a%d has %zu elements, should have %zu", i, c.size(), w.v[i].size());
        EXPECT(c.empty() == w.v[i].empty());
        EXPECT(c.begin() + c.size() == c.end() && a.begin() + a.size() == a.end() && a.begin() == c.begin() && a.buffer() == a.begin());
        for (size_t k = 0; k < c.size(); k++)
            EXPECT(&a[k] == c.begin() + k && &a.at(k) == &c.at(k) && &c[k] == &a[k] && (c[k].check(), c[k].v == w.v[i][k]), "a%d[%zu]", i, k);
        if (c.size()) EXPECT(&c.back() == c.end() - 1 && &a.back() == a.end() - 1);
        n += c.size();
        for (int j = 0; j < i; j++) if (!w.failed[j]) {
            EXPECT((c == *w.a[j]) == (w.v[i] == w.v[j]) && (c != *w.a[j]) == !(w.v[i] == w.v[j]), "comparing a%d and a%d", i, j);
            EXPECT(!c.buffer() || c.buffer() != w.a[j]->buffer(), "a%d and a%d share storage", i, j);
        }
    }
    EXPECT(Trk::count() == n, "%zu live elements, %zu in arrays", Trk::count(), n);
}
// ops: kind(8) x i x j ; j doubles as size, plus a fail bit
static const int NOPS = 8 * N * 4 * 2;
static void apply(World& w, int op) {
    int k = op / (N * 8), i = op / 8 % N, j = op / 2 % 4; Mem::fail = op & 1;
    static const char* nm[] = {"new", "copy-construct", "move-construct", "copy-assign", "move-assign", "from-vector", "from-moved-vector", "overflow"};
    size_t s = j;
    if (k >= 1 && k <= 4 && j >= N) j = i;
    if ((k == 1 || k == 3) && w.failed[j] && i != j) { Mem::fail = false; return; }
    char b[96]; snprintf(b, sizeof b, "a%d %s %s%zu%s; ", i, nm[k], k >= 1 && k <= 4 ? "a" : "", k >= 1 && k <= 4 ? (size_t)j : s, Mem::fail ? " without memory" : "");
    kv::note(b);
    if (k == 3 || k == 4) {
        A& r = k == 3 ? (*w.a[i] = *w.a[j]) : (*w.a[i] = std::move(*w.a[j]));
        EXPECT(&r == w.a[i]);
        if (i != j) {
            w.v[i] = w.v[j];
            if (k == 4) { w.failed[i] = w.failed[j]; w.failed[j] = false; w.v[j].clear(); }
            else w.failed[i] = !w.a[i]->initialize();
            if (!Mem::fail && k == 3) EXPECT(!w.failed[i]);
        }
    } else if (k == 1 || k == 2) {
        if (i != j) {
            w.a[i]->~A(); memset(w.raw[i], 0xa5, sizeof(A));
            if (k == 1) new (w.raw[i]) A(*w.a[j]); else new (w.raw[i]) A(std::move(*w.a[j]));
            w.v[i] = w.v[j];
            if (k == 2) { w.failed[i] = w.failed[j]; w.failed[j] = false; w.v[j].clear(); }
            else w.failed[i] = !w.a[i]->initialize();
            if (!Mem::fail && k == 1) EXPECT(!w.failed[i]);
        }
    } else {
        w.a[i]->~A(); memset(w.raw[i], 0xa5, sizeof(A));
        if (k == 0) { new (w.raw[i]) A(s); w.v[i].assign(s, Trk::DEF); }
        else if (k == 7) { new (w.raw[i]) A(SIZE_MAX / 8 + 1 + s); w.v[i].clear(); }
        else {
            { std::vector<Trk> v; v.reserve(s); w.v[i].clear();
              for (size_t q = 0; q < s; q++) { w.v[i].push_back(w.next); v.emplace_back(w.next++); }
              if (k == 5) { new (w.raw[i]) A(v); for (size_t q = 0; q < s; q++) EXPECT(v[q].v == w.v[i][q]); } else new (w.raw[i]) A(std::move(v)); }
        }
        w.failed[i] = !w.a[i]->initialize();
        EXPECT(w.failed[i] == (k == 7 || (Mem::fail && s != 0)), "initialize()");
    }
    bool f = Mem::fail; Mem::fail = false;
    verify(w);
    if (!w.failed[i] && !f) { fill(w, i); verify(w); }
}
static void run(const std::vector<int>& ops) {
    kv::begin("FixedArray: ");
    World w; memset(w.raw, 0xa5, sizeof w.raw);
    for (int i = 0; i < N; i++) { w.a[i] = i ? new (w.raw[i]) A(i) : new (w.raw[i]) A(); w.failed[i] = false; w.v[i].assign(i, Trk::DEF); }
    verify(w);
    for (int i = 0; i < N; i++) fill(w, i);
    for (int o : ops) apply(w, o);
    kv::note("destroy all");
    for (int i = 0; i < N; i++) w.a[i]->~A();
    EXPECT(Trk::count() == 0, "%zu elements left", Trk::count()); EXPECT(Mem::blocks.empty(), "storage leaked");
}
void kv_main() {
    for (int a = 0; a < NOPS; a++) { run({a}); for (int b = 0; b < NOPS && kv::time_left(); b++) run({a, b}); }
    while (kv::time_left()) for (int i = 0; i < 100; i++) {
        std::vector<int> v;
        for (int n = 3 + kv::rnd(10); n; n--) v.push_back(kv::rnd(NOPS));
        run(v);
    }
}
