#include "kv.h"
#include <pthread.h>
#include <sched.h>
#include <map>
#include <thread>
#include <atomic>
// the system's keys, simulated: which exist, who made them, what each thread stored
static std::map<unsigned, bool> g_keys; static std::map<std::pair<unsigned, int>, const void*> g_vals; static int g_tid; static unsigned g_next = 7; static bool g_failcreate, g_failset, g_real; static int g_created, g_deleted; static jmp_buf g_abort; static int g_slots;
static int sim_create(pthread_key_t* k, void (*d)(void*)) { if (g_real) return pthread_key_create(k, d); if (g_failcreate) return 11; g_next += 3; *k = g_next; g_keys[g_next] = true; g_created++; return 0; }
static int sim_delete(pthread_key_t k) { if (g_real) return pthread_key_delete(k); if (!g_keys.count(k)) kv::fail("deletes key %u, which is not its own", k); g_keys.erase(k); for (int t = 0; t < 3; t++) g_vals.erase({k, t}); g_deleted++; return 0; }
static void* sim_get(pthread_key_t k) { if (g_real) return pthread_getspecific(k); if (!g_keys.count(k)) kv::fail("reads key %u, which is not its own", k); auto i = g_vals.find({k, g_tid}); return i == g_vals.end() ? nullptr : (void*)i->second; }
static int sim_set(pthread_key_t k, const void* v) { if (g_real) return pthread_setspecific(k, v); if (!g_keys.count(k)) kv::fail("writes key %u, which is not its own", k); if (g_failset) return 12; g_vals[{k, g_tid}] = v; return 0; }
static void sim_abort() { longjmp(g_abort, 1); }
#define pthread_key_create sim_create
#define pthread_key_delete sim_delete
#define pthread_getspecific sim_get
#define pthread_setspecific sim_set
#define abort sim_abort
#include <amtl/am-threadlocal.h>
#undef abort
using namespace ke;
template <typename T> static T val(int i);
template <> int* val<int*>(int i) { static int a[4]; return i ? &a[i] : nullptr; }
template <> int val<int>(int i) { static int v[] = {0, -5, 0x7fffffff, 17}; return v[i]; }
template <> uintptr_t val<uintptr_t>(int i) { static uintptr_t v[] = {0, 1, ~0ull, 0x8000000000000001ull}; return v[i]; }
template <typename T> static void run(const std::vector<int>& ops) {
    kv::begin("ThreadLocal: ");
    g_keys.clear(); g_vals.clear(); g_created = g_deleted = 0; g_tid = 0; g_failcreate = g_failset = false;
    static char mem[256]; memset(mem, 0x5a, sizeof mem); ThreadLocal<T>* l = new (mem) ThreadLocal<T>();
    T want[3] = {T(), T(), T()}; volatile bool has = false; static char b[60];
    for (size_t n = 0; n < ops.size(); n++) {
        int o = ops[n], op = o % 6, t = o / 6 % 3, v = o / 18 % 4;
        g_tid = t; static const char* nm[] = {"set", "allocate", "set with failing create", "set with failing store", "allocate failing", "assign"};
        snprintf(b, sizeof b, "t%d %s %d; ", t, nm[op], v); kv::note(b);
        g_failcreate = op == 2 || op == 4; g_failset = op == 3;
        volatile bool stopped = false;
        if (setjmp(g_abort)) stopped = true;
        else if (op == 1 || op == 4) { bool r = l->allocate(); bool exp = has || op == 1; EXPECT(r == exp, "allocate returned %d", r); has = has || op == 1; }
        else if (op == 5) { *l = val<T>(v); }
        else l->set(val<T>(v));
        if (op == 0 || op == 5) { EXPECT(!stopped); has = true; want[t] = val<T>(v); }
        if (op == 2) { EXPECT(stopped == !has, "the program is stopped when no key can be obtained"); if (has) want[t] = val<T>(v); }
        if (op == 3) { EXPECT(stopped, "the program is stopped when the value cannot be stored"); has = true; }
        g_failcreate = g_failset = false;
        EXPECT(g_created == (has ? 1 : 0), "%d keys obtained", g_created); EXPECT(g_deleted == 0);
        for (int q = 0; q < 3; q++) { g_tid = q; EXPECT(l->get() == want[q], "thread %d reads another value than it stored", q); EXPECT(**l == want[q] && l->operator->() == want[q] && !*l == !want[q] && *l == want[q] && !(*l != want[q])); EXPECT(g_created == (has ? 1 : 0)); }
    }
    g_tid = 1; l->~ThreadLocal<T>();
    EXPECT(g_deleted == (has ? 1 : 0) && g_keys.empty(), "the key is given back exactly once");
}
template <typename T> static void all() {
    run<T>({});
    for (int a = 0; a < 72; a++) { run<T>({a}); for (int b = 0; b < 72; b++) run<T>({a, b}); }
    for (int i = 0; i < 3000; i++) { std::vector<int> v; for (int n = kv::rnd(8); n >= 0; n--) v.push_back(kv::rnd(72)); run<T>(v); }
}
static std::atomic<int> g_go;
void kv_main() {
    if (!freopen("/dev/null", "w", stderr)) {}
    all<int*>(); all<int>(); all<uintptr_t>();
    // real threads on a new slot
    g_real = true;
    int rounds = 0;
    do {
        kv::begin("4 threads store into a new slot at once, round %d", rounds);
        ThreadLocal<uintptr_t> l; std::vector<std::thread> ts; g_go = 0;
        for (int t = 1; t <= 4; t++) ts.emplace_back([&, t] { g_go++; while (g_go < 4) {} EXPECT(l.get() == 0, "reads a value nobody stored"); l = t * 1000; EXPECT(l.get() == (uintptr_t)t * 1000, "thread reads another value than it stored"); l = t; EXPECT(l.get() == (uintptr_t)t, "thread reads another value than it stored"); });
        for (auto& t : ts) t.join();
        EXPECT(l.get() == 0, "a thread that stored nothing reads the default");
    } while (++rounds < 3000 || (kv::time_left() && rounds < 100000));
}
