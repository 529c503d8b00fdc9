#include "tok.h"
#include <amtl/am-function.h>
// callables, known by their contracts: two that fit the inline buffer and one that does not
#define CALLABLE(N, W) struct N { uint64_t w[W]; N(); N(const N&); N(N&&); ~N(); uint64_t operator()(uint64_t, Tok) const; };
CALLABLE(Sml, 1)
CALLABLE(Med, 2)
CALLABLE(Lrg, 3)
struct alignas(32) Aln { uint64_t w[1]; Aln(); Aln(const Aln&); Aln(Aln&&); ~Aln(); uint64_t operator()(uint64_t, Tok) const; };
struct Ref { uint64_t w[1]; Ref(); Ref(const Ref&); Ref(Ref&&); ~Ref(); void operator()(Tok&) const; };
typedef ke::Function<uint64_t(uint64_t, Tok)> F;
typedef ke::Function<void(Tok&)> G;
static_assert(sizeof(ke::impl::FunctionHolder<Sml, uint64_t, uint64_t, Tok>) <= sizeof(((F*)0)->buffer_), "");
uint64_t plain(uint64_t, Tok);
extern "C" {
extern const size_t c20_size = sizeof(F), c20_gsize = sizeof(G), c20_falign = alignof(F);
void c20_def(void* p) { new (p) F(); }
void c20_null(void* p) { new (p) F(nullptr); }
void c20_copy(void* p, const F* o) { new (p) F(*o); }
void c20_copync(void* p, F* o) { new (p) F(*o); }
void c20_move(void* p, F* o) { new (p) F(std::move(*o)); }
void c20_dtor(F* p) { p->~F(); }
F* c20_asgnull(F* p) { return &(*p = nullptr); }
F* c20_asg(F* p, const F* o) { return &(*p = *o); }
F* c20_asgnc(F* p, F* o) { return &(*p = *o); }
F* c20_asgm(F* p, F* o) { return &(*p = std::move(*o)); }
bool c20_bool(const F* p) { return bool(*p); }
bool c20_inline(const F* p) { return p->usingInlineStorage(); }
uint64_t c20_call(const F* p, uint64_t a, const Tok* t) { return (*p)(a, *t); }
#define PER(N) \
void c20_c_##N(void* p, const N* o) { new (p) F(*o); } \
void c20_l_##N(void* p, N* o) { new (p) F(*o); } \
void c20_m_##N(void* p, N* o) { new (p) F(std::move(*o)); } \
F* c20_ac_##N(F* p, const N* o) { return &(*p = *o); } \
F* c20_am_##N(F* p, N* o) { return &(*p = std::move(*o)); }
PER(Sml) PER(Med) PER(Lrg) PER(Aln)
void c20_plain(void* p) { new (p) F(plain); }
void c20_g(void* p, const Ref* o) { new (p) G(*o); }
void c20_gcall(const G* p, Tok* t) { (*p)(*t); }
void c20_gdtor(G* p) { p->~G(); }
}
