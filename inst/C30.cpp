#include <stddef.h>
#include <new>
#include <mutex>
#include <amtl/am-mutex.h>
typedef ke::Mutex M;
extern "C" {
extern const size_t c30_size = sizeof(M), c30_msize = sizeof(std::mutex);
void m_new(void* p) { new (p) M(); }
void m_end(M* p) { p->~M(); }
void m_lock(M* p) { p->lock(); }
bool m_try(M* p) { return p->try_lock(); }
void m_unlock(M* p) { p->unlock(); }
void m_assert(M* p) { p->AssertCurrentThreadOwns(); }
void m_guard(M* p) { std::lock_guard<M> g(*p); p->AssertCurrentThreadOwns(); }
void m_unique(M* p) { std::unique_lock<M> g(*p); g.unlock(); g.lock(); p->AssertCurrentThreadOwns(); }
bool m_utry(M* p) { std::unique_lock<M> g(*p, std::try_to_lock); if (g) p->AssertCurrentThreadOwns(); return bool(g); }
void m_lockunlock(M* p) { p->lock(); p->unlock(); }
}
