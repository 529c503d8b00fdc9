#include "tok.h"
#include <amtl/am-thread.h>
// callables, known by their contracts
struct Job { uint64_t w[1]; Job(); Job(const Job&); Job(Job&&); ~Job(); void operator()(uint64_t, const Tok&); };
struct Job0 { uint64_t w[3]; Job0(); Job0(const Job0&); Job0(Job0&&); ~Job0(); uint64_t operator()(); };
void plainjob(uint64_t, const Tok&);
typedef std::unique_ptr<std::thread> P;
extern "C" {
void c32_lval(P* out, const char* n, Job* f, uint64_t* a, Tok* t) { new (out) P(ke::NewThread(n, *f, *a, *t)); }
void c32_clval(P* out, const char* n, const Job* f, const uint64_t* a, const Tok* t) { new (out) P(ke::NewThread(n, *f, *a, *t)); }
void c32_rval(P* out, const char* n, Job* f, uint64_t a, Tok* t) { new (out) P(ke::NewThread(n, std::move(*f), std::move(a), std::move(*t))); }
void c32_plain(P* out, const char* n, uint64_t a, Tok* t) { new (out) P(ke::NewThread(n, plainjob, a, *t)); }
void c32_none(P* out, const char* n, const Job0* f) { new (out) P(ke::NewThread(n, *f)); }
void c32_self(const char* n) { ke::SetThreadName(n); }
void c32_other(std::thread* t, const char* n) { ke::SetThreadName(t, n); }
std::thread* c32_get(P* p) { return p->get(); }
bool c32_joinable(P* p) { return (*p)->joinable(); }
void c32_join(P* p) { (*p)->join(); }
void c32_drop(P* p) { p->~P(); }
// what libstdc++'s thread entry does with the state it was handed
void c32_body(std::thread::_State* s) { std::unique_ptr<std::thread::_State> t(s); t->_M_run(); }
}
