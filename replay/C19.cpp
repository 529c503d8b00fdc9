#include "kv.h"
#include <thread>
#include <amtl/am-refcounting-threadsafe.h>
using namespace ke;
static std::atomic<long> g_made, g_dead;
struct alignas(16) Rc : RefcountedThreadsafe<Rc> { std::atomic<int> alive{1}; Rc() { g_made++; } ~Rc() { if (alive.exchange(0) != 1) kv::fail("destroyed twice"); g_dead++; } };
struct alignas(16) Vrc : VirtualRefcountedThreadsafe { std::atomic<int> alive{1}; Vrc() { g_made++; } ~Vrc() { if (alive.exchange(0) != 1) kv::fail("destroyed twice"); g_dead++; } };
struct alignas(16) Fwd : IRefcounted, RefcountedThreadsafe<Fwd> { std::atomic<int> alive{1}; Fwd() { g_made++; } ~Fwd() { if (alive.exchange(0) != 1) kv::fail("destroyed twice"); g_dead++; } KE_IMPL_REFCOUNTING_TS(Fwd) };
template <typename F> static void par(int n, F f) {
    std::vector<std::thread> t;
    std::atomic<int> go{0};
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { go++; while (go < n) {} f(i); });
    for (auto& x : t) x.join();
}
template <typename T> static void single(const char* nm) {
    kv::begin("%s, one thread", nm);
    long d = g_dead;
    T* o = new T();
    for (int i = 0; i < 100; i++) o->AddRef();
    for (int i = 0; i < 99; i++) { o->Release(); EXPECT(g_dead == d); }
    o->Release();
    EXPECT(g_dead == d + 1);
    o = new T(); delete o;
    EXPECT(g_dead == d + 2);
}
template <typename T> static void stress(const char* nm, int threads, int n) {
    kv::begin("%s, %d threads adding and dropping %d references each", nm, threads, n);
    long d = g_dead;
    T* o = new T();
    o->AddRef();
    par(threads, [&](int) { for (int i = 0; i < n; i++) o->AddRef(); for (int i = 0; i < n; i++) o->Release(); });
    EXPECT(g_dead == d, "destroyed while referenced");
    o->Release();
    EXPECT(g_dead == d + 1, "not destroyed by the last reference");
    for (int k = 0; k < 60; k++) {
        o = new T();
        for (int i = 0; i < threads; i++) o->AddRef();
        par(threads, [&](int) { o->Release(); });
        EXPECT(g_dead == d + 2 + k, "destroyed %ld times", g_dead - d - 1 - k);
    }
}
static void cells(int threads, int n) {
    kv::begin("AtomicRef, one thread");
    long m = g_made, d = g_dead;
    {
        AtomicRef<Rc> c;
        EXPECT(!c.get());
        Rc* o = new Rc(); c = o;
        { RefPtr<Rc> r = c.get(); EXPECT(r == o); RefPtr<Rc> s = c.get(); EXPECT(s == o); }
        EXPECT(g_dead == d); c = o; EXPECT(g_dead == d);
        { RefPtr<Rc> r = c.get(); c = new Rc(); EXPECT(g_dead == d); }
        EXPECT(g_dead == d + 1); c = nullptr; EXPECT(g_dead == d + 2);
        AtomicRef<Rc> e(new Rc());
    }
    EXPECT(g_made - m == g_dead - d, "%ld made, %ld destroyed", g_made - m, g_dead - d);
    kv::begin("AtomicRef, %d threads reading and replacing", threads);
    m = g_made; d = g_dead;
    {
        AtomicRef<Rc> c(new Rc());
        par(threads, [&](int t) { for (int i = 0; i < n; i++) { if ((i + t) % 3 == 0) { c = (i % 7 == 0) ? nullptr : new Rc(); } else { RefPtr<Rc> r = c.get(); if (r) EXPECT(r->alive == 1, "handed out a dead object"); } } });
    }
    EXPECT(g_made - m == g_dead - d, "%ld made, %ld destroyed", g_made - m, g_dead - d);
}
void kv_main() {
    single<Rc>("RefcountedThreadsafe"); single<Vrc>("VirtualRefcountedThreadsafe"); single<Fwd>("KE_IMPL_REFCOUNTING_TS");
    cells(1, 100);
    while (kv::time_left()) {
        stress<Rc>("RefcountedThreadsafe", 4, 20000); stress<Vrc>("VirtualRefcountedThreadsafe", 4, 20000); stress<Fwd>("KE_IMPL_REFCOUNTING_TS", 4, 20000);
        cells(4, 3000);
    }
}
