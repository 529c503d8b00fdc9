#include "tok.h"
#include <amtl/am-maybe.h>
using namespace ke;
typedef Maybe<Tok> M;
struct alignas(64) Big { char c[64]; Big(); ~Big(); Big(const Big&); };
extern "C" {
extern const size_t c17_size = sizeof(M);
extern const size_t c17_bigsize = sizeof(Maybe<Big>);
extern const size_t c17_bigalign = alignof(Maybe<Big>);
void c17_ctor(void* p) { new (p) M(); }
void c17_nothing(void* p) { new (p) M(Nothing()); }
void c17_copy(void* p, const M* o) { new (p) M(*o); }
void c17_move(void* p, M* o) { new (p) M(std::move(*o)); }
void c17_dtor(M* m) { m->~M(); }
void c17_init_c(M* m, const Tok* t) { m->init(*t); }
void c17_init_m(M* m, Tok* t) { m->init(std::move(*t)); }
void c17_init_n(M* m, uint64_t n) { m->init(n); }
void c17_init_0(M* m) { m->init(); }
M* c17_asg(M* m, const M* o) { return &(*m = *o); }
M* c17_asgm(M* m, M* o) { return &(*m = std::move(*o)); }
M* c17_asgn(M* m) { return &(*m = Nothing()); }
bool c17_valid(const M* m) { return m->isValid(); }
bool c17_bool(const M* m) { return bool(*m); }
Tok* c17_arrow(M* m) { return m->operator->(); }
const Tok* c17_carrow(const M* m) { return m->operator->(); }
Tok* c17_star(M* m) { return &**m; }
const Tok* c17_cstar(const M* m) { return &**m; }
Tok* c17_get(M* m) { return &m->get(); }
const Tok* c17_cget(const M* m) { return &m->get(); }
void c17_some_c(void* p, const Tok* t) { new (p) M(Some(*t)); }
void c17_some_m(void* p, Tok* t) { new (p) M(Some(std::move(*t))); }
const Big* c17_bigget(const Maybe<Big>* m) { return &m->get(); }
bool c17_bigvalid(const Maybe<Big>* m) { return m->isValid(); }
}
