// CXX: clang++-18
// FLAGS: -fno-sanitize=address,undefined -fsanitize=thread
#include "kv.h"
#include <thread>
#include <atomic>
#include <amtl/am-refcounting-threadsafe.h>
// objects of a few fixed addresses: a new object often has the address of one just destroyed.  The sanitizer of the build
// checks that every use is ordered with construction and destruction.
enum { N = 6 };
static std::atomic<int> used[N]; alignas(64) static char room[N][64];
static std::atomic<long> made, dead; static thread_local long busy;
template <template <typename> class B> struct Ob : B<Ob<B>> {
    int data, gone = 0; ke::AtomicRef<Ob>* back;
    Ob(int d, ke::AtomicRef<Ob>* b) : data(d), back(b) { made++; }
    ~Ob() { EXPECT(!gone, "destroyed twice"); gone = 1; dead++; if (back) { ke::RefPtr<Ob> p = back->get(); if (p) { EXPECT(!p->gone, "a dead object handed out"); busy += p->data; } } data = -1; }
    static void* operator new(size_t) { for (;;) for (int i = 0; i < N; i++) { int z = 0; if (used[i].compare_exchange_strong(z, 1)) return room[i]; } }
    static void operator delete(void* p) { used[((char(*)[64])p) - room].store(0); }
};
typedef Ob<ke::RefcountedThreadsafe> X;
static void run(int readers, int writers, int n, bool nulls, bool back) {
    kv::begin("%d readers, %d writers, %d rounds, nulls %d, destructors read the cell %d", readers, writers, n, nulls, back);
    long m = made, d = dead;
    {
        ke::AtomicRef<X> cell; cell = new X(1, nullptr);
        std::vector<std::thread> t; std::atomic<int> left(writers), go(0);
        for (int k = 0; k < writers; k++) t.emplace_back([&, k] { go++; while (go < readers + writers) {} for (int i = 1; i < n; i++) { if (nulls && i % 5 == k) cell = nullptr; else cell = new X(i, back ? &cell : nullptr); } left--; });
        for (int k = 0; k < readers; k++) t.emplace_back([&] { go++; while (go < readers + writers) {} long s = 0; while (left > 0) { ke::RefPtr<X> p = cell.get(); if (p) { s += p->data; EXPECT(!p->gone && p->data >= 0, "a dead object handed out"); } } busy += s; });
        for (auto& x : t) x.join();
        if (back) cell = nullptr;
    }
    EXPECT(made - m == dead - d, "%ld made, %ld destroyed", made - m, dead - d);
}
void kv_main() {
    kv::begin("one thread");
    { ke::AtomicRef<X> c; EXPECT(!c.get()); X* x = new X(3, nullptr); c = x; ke::RefPtr<X> p = c.get(); EXPECT(p == x); c = nullptr; EXPECT(!c.get() && dead == 0); p = nullptr; EXPECT(dead == 1); c = new X(4, &c); c = new X(5, &c); EXPECT(dead == 2); c = nullptr; EXPECT(dead == 3); }
    while (kv::time_left()) {
        run(3, 1, 400, false, false); run(3, 1, 400, false, false); run(2, 2, 400, true, false); run(2, 2, 200, true, true); run(0, 4, 400, true, false);
    }
}
