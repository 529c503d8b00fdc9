#include <pthread.h>
static int g_ops[3], g_failnext;
static int kv_lock(pthread_mutex_t* m) { g_ops[0]++; return pthread_mutex_lock(m); }
static int kv_try(pthread_mutex_t* m) { g_ops[1]++; return pthread_mutex_trylock(m); }
static int kv_unlock(pthread_mutex_t* m) { g_ops[2]++; return pthread_mutex_unlock(m); }
#define pthread_mutex_lock kv_lock
#define pthread_mutex_trylock kv_try
#define pthread_mutex_unlock kv_unlock
#define __assert_fail kv_assert_fail
#include <assert.h>
#include <mutex>
#include <thread>
#include <amtl/am-mutex.h>
#undef pthread_mutex_lock
#undef pthread_mutex_trylock
#undef pthread_mutex_unlock
#include "kv.h"
#include <condition_variable>
#include <functional>
static thread_local jmp_buf t_jb;
extern "C" void kv_assert_fail(const char*, const char*, unsigned, const char*) noexcept { longjmp(t_jb, 1); }
static bool owns(ke::Mutex& m) { if (setjmp(t_jb)) return false; m.AssertCurrentThreadOwns(); return true; }
// a second thread that does what it is told
struct Worker {
    std::mutex mu; std::condition_variable cv; std::function<void()> job; bool quit = false; std::thread th;
    Worker() : th([this] { std::unique_lock<std::mutex> l(mu); for (;;) { cv.wait(l, [this] { return job || quit; }); if (quit) return; job(); job = nullptr; cv.notify_all(); } }) {}
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(mu); job = f; cv.notify_all(); cv.wait(l, [this] { return !job; }); }
    ~Worker() { { std::unique_lock<std::mutex> l(mu); quit = true; cv.notify_all(); } th.join(); }
};
void kv_main() {
    Worker w;
    auto as = [&](int t, std::function<void()> f) { if (t) w.run(f); else f(); };
    // script: (thread, op) with op lock/try/unlock/try_to_lock guard
    int total = 0;
    for (int len = 0; len <= 5; len++) {
        int n = 1; for (int i = 0; i < len; i++) n *= 6;
        for (int s = 0; s < n; s++) {
            if (len == 5 && s % 3) continue;
            kv::begin("Mutex: ");
            ke::Mutex m; int holder = -1; bool skip = false;
            for (int i = 0, x = s; i < len && !skip; i++, x /= 6) {
                int t = x % 2, op = x / 2 % 3; char b[40]; static const char* nm[] = {"lock", "try_lock", "unlock"};
                if ((op == 0 && holder != -1) || (op == 2 && holder != t) || (op == 1 && holder == t)) { skip = true; break; }
                snprintf(b, sizeof b, "t%d %s; ", t, nm[op]); kv::note(b);
                int before[3] = {g_ops[0], g_ops[1], g_ops[2]}; bool r = true;
                as(t, [&] { before[0] = g_ops[0]; before[1] = g_ops[1]; before[2] = g_ops[2]; if (op == 0) m.lock(); else if (op == 1) r = m.try_lock(); else m.unlock();
                    for (int k = 0; k < 3; k++) EXPECT(g_ops[k] == before[k] + (k == op), "exactly one operation on the underlying mutex"); });
                if (op == 1) { EXPECT(r == (holder == -1), "try_lock returned %d", r); if (r) holder = t; } else holder = op == 0 ? t : -1;
                for (int q = 0; q < 2; q++) { bool o = false; as(q, [&] { o = owns(m); }); EXPECT(o == (holder == q), "ownership check of thread %d %s", q, o ? "passes without the mutex" : "fails with the mutex"); }
            }
            if (holder != -1) as(holder, [&] { m.unlock(); });
            total++;
        }
    }
    kv::begin("two threads take turns");
    ke::Mutex m; long count = 0;
    auto body = [&] { for (int i = 0; i < 200000; i++) { if (i & 1) m.lock(); else while (!m.try_lock()) {} EXPECT(owns(m), "the holder does not pass the ownership check"); count++; m.unlock(); } };
    std::thread a(body), b(body); a.join(); b.join(); EXPECT(count == 400000);
}
