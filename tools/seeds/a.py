seed('s01-align-wide', 'C02', 'amtl/am-bits.h', ("    return count + (alignment - (count % alignment)) % alignment;", "    return (count + alignment - 1) & ~size_t(uint32_t(alignment) - 1);"),
     'an alignment of 2^32 or more', 'Align truncates the alignment mask to 32 bits, so huge alignments give counts that are not aligned',
     r'''
#include <stddef.h>
#include <stdint.h>
#include <amtl/am-bits.h>
int main() {
    for (int i = 0; i < 60; i++) for (size_t c : {size_t(0), size_t(1), size_t(5), size_t(4096), size_t(123456789)}) {
        size_t a = size_t(1) << i, r = ke::Align(c, a);
        if (r < c || r % a || r - c >= a) return 1;
    }
    return 0;
}
''')
seed('s02-flags-bool', 'C03', 'amtl/am-flags.h', ("        return value_ != static_cast<T>(0);", "        return static_cast<int>(bits()) != 0;"),
     'a 64-bit flag set with only high bits', 'the truth test looks at the low 32 bits only',
     r'''
#include <stdint.h>
#include <amtl/am-flags.h>
enum class E : uint64_t { A = 1, B = uint64_t(1) << 40 };
int main() {
    for (int i = 0; i < 64; i++) { ke::Flags<E> x((E)(uint64_t(1) << i)); if (!bool(x) || !x) return 1; }
    return bool(ke::Flags<E>()) ? 2 : 0;
}
''')
seed('s03-alreadyrefed-copy', 'C18', 'amtl/am-refcounting.h', ("""     : thing_(other.thing_)
    {
        if (thing_)
            thing_->AddRef();
    }
    AlreadyRefed(AlreadyRefed<T>&& other)""", """     : thing_(other.thing_)
    {
        other.thing_ = nullptr;
    }
    AlreadyRefed(AlreadyRefed<T>&& other)"""),
     'copying a transfer object and using both copies', 'copying an AlreadyRefed steals the reference, so the copied-from object no longer holds one',
     r'''
#include <assert.h>
#include <amtl/am-refcounting.h>
struct N : ke::Refcounted<N> { ~N() { dead++; } static int dead; };
int N::dead = 0;
static ke::AlreadyRefed<N> make() { N* n = new N(); n->AddRef(); return ke::AdoptRef(n); }
int main() {
    ke::AlreadyRefed<N> a(make());
    const ke::AlreadyRefed<N>& ca = a;
    ke::AlreadyRefed<N> b(ca);
    ke::RefPtr<N> p(a), q(b);
    if (!p || !q || p != q) return 1;
    p = nullptr;
    if (N::dead) return 2;
    q = nullptr;
    return N::dead == 1 ? 0 : 3;
}
''')
seed('s04-scopeguard-cancelled', 'C23', 'amtl/am-raii.h', ("        cancelled_(other.cancelled_)", "        cancelled_(false)"),
     'a guard that is cancelled first and moved afterwards', 'moving a cancelled guard makes the new guard run the callback',
     r'''
#include <assert.h>
#include <amtl/am-raii.h>
int main() {
    int n = 0;
    {
        auto g = ke::MakeScopeGuard([&]() -> void { n++; });
        g.cancel();
        auto h(std::move(g));
    }
    if (n != 0) return 1;
    {
        auto g = ke::MakeScopeGuard([&]() -> void { n++; });
        auto h(std::move(g));
    }
    return n == 1 ? 0 : 2;
}
''')
seed('s05-mutex-unlock-order', 'C30', 'amtl/am-mutex.h', ("""       owner_ = {};
       std::mutex::unlock();""", """       std::mutex::unlock();
       owner_ = {};"""),
     'another thread acquiring the mutex between the release and the clearing of the owner', 'unlock clears the owner after releasing, wiping the record of the next holder',
     r'''
// the race is forced: the system's unlock lets a second thread take the mutex before it returns
#include <pthread.h>
#include <atomic>
static std::atomic<int> phase;
static int demo_unlock(pthread_mutex_t* m) {
    int r = pthread_mutex_unlock(m);
    if (phase == 1) { phase = 2; while (phase != 3) {} }
    return r;
}
#define pthread_mutex_unlock demo_unlock
#include <mutex>
#include <thread>
#include <amtl/am-mutex.h>
#undef pthread_mutex_unlock
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
static void on_abort(int) { _exit(1); }
int main() {
    signal(SIGABRT, on_abort);
    ke::Mutex m;
    m.lock();
    std::atomic<int> go(0);
    std::thread t([&] {
        while (phase != 2) {}
        m.lock();
        phase = 3;
        while (!go) {}
        m.AssertCurrentThreadOwns();
        phase = 4;
        m.unlock();
    });
    phase = 1;
    m.unlock();
    go = 1;
    t.join();
    return 0;
}
''')
seed('s06-fixedarray-reuse', 'C16', 'amtl/am-fixedarray.h', ("""            deallocate();
            if (!allocate(other.size()))
                return *this;
        }""", """            deallocate();
            if (!allocate(other.size())) {
                size_ = 0;
                return *this;
            }
        }"""),
     'a copy assignment whose allocation fails', 'after a failed copy assignment the array claims to be initialised (empty) instead of reporting the failure',
     r'''
#include <stddef.h>
#include <stdlib.h>
#include <amtl/am-fixedarray.h>
struct Policy {
    static bool fail;
    void reportOutOfMemory() {}
    void reportAllocationOverflow() {}
    void* am_malloc(size_t n) { return fail ? nullptr : malloc(n); }
    void am_free(void* p) { free(p); }
};
bool Policy::fail = false;
int main() {
    ke::FixedArray<int, Policy> a(3), b(5);
    if (!a.initialize() || !b.initialize()) return 2;
    Policy::fail = true;
    a = b;
    Policy::fail = false;
    if (a.initialize()) return 1;
    a = b;
    return a.initialize() && a.size() == 5 ? 0 : 3;
}
''')
seed('s07-atomicref-get', 'C19', 'amtl/am-refcounting-threadsafe.h', ('''        if (value)
            value->AddRef();
        unlock(value);
        return AdoptRef(value);''', '''        unlock(value);
        if (value)
            value->AddRef();
        return AdoptRef(value);'''),
     'another thread replacing the cell between the read of the pointer and the AddRef', 'AtomicRef::get takes its reference after unlocking, so the object can be destroyed in between',
     r'''
#include <assert.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <amtl/am-refcounting-threadsafe.h>
// AddRef lets a second thread try to replace the cell while get() is taking its reference
struct N;
static ke::AtomicRef<N>* cell;
static std::atomic<bool> armed, replaced;
static std::thread* other;
struct alignas(16) N {
    std::atomic<int> n{0};
    void AddRef() {
        if (armed.exchange(false)) {
            other = new std::thread([] { *cell = nullptr; replaced = true; });
            for (int i = 0; i < 300 && !replaced; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            if (replaced) _exit(1);
        }
        n++;
    }
    void Release() { n--; }
};
int main() {
    N a;
    ke::AtomicRef<N> c(&a);
    cell = &c;
    armed = true;
    { ke::RefPtr<N> r(c.get()); other->join(); if (!r || a.n != 1) return 2; }
    return a.n == 0 ? 0 : 3;
}
''')
seed('s08-function-assign-leak', 'C20', 'amtl/am-function.h', ('''        destroy();
        assign(other);
        return *this;''', '''        if (other)
            destroy();
        assign(other);
        return *this;'''),
     'copy-assigning an empty function over one that holds a callable', 'the held callable is never destroyed',
     r'''
#include <amtl/am-function.h>
static int live;
struct C { C() { live++; } C(const C&) { live++; } C(C&&) { live++; } ~C() { live--; } int operator()() const { return 7; } };
int main() {
    {
        ke::Function<int()> f{C()};
        const ke::Function<int()> empty;
        const ke::Function<int()> g{C()};
        if (f() != 7) return 2;
        f = g;
        if (f() != 7) return 2;
        f = empty;
        if (f) return 3;
    }
    return live == 0 ? 0 : 1;
}
''')
seed('s09-maybe-reinit', 'C17', 'amtl/am-maybe.h', ('''        if (isValid())
            t_.address()->~T();

        new (t_.address())''', '''        new (t_.address())'''),
     'initialising a Maybe that already holds a value', 'the old value is overwritten without being destroyed',
     r'''
#include <new>
#include <amtl/am-maybe.h>
static int live;
struct C { int v; C(int v) : v(v) { live++; } C(const C& o) : v(o.v) { live++; } C(C&& o) : v(o.v) { live++; } ~C() { live--; } };
int main() {
    {
        ke::Maybe<C> m;
        m.init(1);
        m.init(2);
        if (!m.isValid() || m->v != 2 || live != 1) return 1;
    }
    return live == 0 ? 0 : 2;
}
''')
seed('s10-threadlocal-get', 'C24', 'amtl/am-threadlocal.h', ('''        if (!allocated_)
            return T();
        return internalGet();''', '''        return internalGet();'''),
     'reading a slot before anything was stored, while its uninitialised key is that of another slot', 'an unallocated slot reads through a key it never obtained',
     r'''
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include <new>
#include <amtl/am-threadlocal.h>
int main() {
    pthread_key_t k[8];
    for (auto& x : k) { if (pthread_key_create(&x, nullptr)) return 2; pthread_setspecific(x, (void*)0x1230); }
    alignas(16) char mem[sizeof(ke::ThreadLocal<uintptr_t>)];
    for (auto x : k) {
        for (size_t i = 0; i + sizeof x <= sizeof mem; i += sizeof x) memcpy(mem + i, &x, sizeof x);
        ke::ThreadLocal<uintptr_t>* t = new (mem) ke::ThreadLocal<uintptr_t>();
        if (t->get() != 0) return 1;
        *t = 5;
        if (t->get() != 5) return 3;
        t->~ThreadLocal();
        if (pthread_getspecific(x) != (void*)0x1230) return 4;
    }
    return 0;
}
''')
seed('s11-timespec-2038', 'C25', 'amtl/am-time.h', ('std::chrono::seconds{ts.tv_sec} +', 'std::chrono::seconds{static_cast<int>(ts.tv_sec)} +'),
     'seconds that do not fit 32 bits', 'TimespecToDuration wraps after 2038',
     r'''
#include <amtl/am-time.h>
int main() {
    for (long long s : {0ll, 1ll, -1ll, 1700000000ll, 2147483647ll, 2147483648ll, 4102444800ll, -3000000000ll}) {
        timespec ts{}; ts.tv_sec = s; ts.tv_nsec = 7;
        if (ke::TimespecToDuration(ts).count() != s * 1000000000ll + 7) return 1;
        auto t = ke::TimespecToTimePoint<std::chrono::system_clock>(ts);
        if (t.time_since_epoch().count() != s * 1000000000ll + 7) return 2;
    }
    return 0;
}
''')
