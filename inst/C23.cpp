#include "tok.h"
#include <amtl/am-raii.h>
struct Cb { uint64_t v; Cb(); Cb(const Cb&); Cb(Cb&&); ~Cb(); void operator()(); };
struct Pad { uint64_t x; };
struct Node : Pad, ke::StackLinked<Node> { Node(Node** p) : ke::StackLinked<Node>(p) {} };
typedef ke::SaveAndSet<Tok> S;
typedef ke::SaveAndSet<int> SI;
typedef ke::ScopeGuard<Cb> G;
typedef ke::ScopeGuard<Cb&> GR;
extern "C" {
extern const size_t c23_ssize = sizeof(S), c23_sisize = sizeof(SI), c23_nsize = sizeof(Node), c23_gsize = sizeof(G), c23_grsize = sizeof(GR);
void c23_save(void* p, Tok* loc, const Tok* v) { new (p) S(loc, *v); }
void c23_saved(S* p) { p->~S(); }
void c23_savei(void* p, int* loc, const int* v) { new (p) SI(loc, *v); }
void c23_savedi(SI* p) { p->~SI(); }
Node* c23_link(void* p, Node** head) { return new (p) Node(head); }
void c23_unlink(Node* p) { p->~Node(); }
void c23_guard(void* p, Cb* cb) { new (p) G(std::move(*cb)); }
void c23_make(void* p, Cb* cb) { new (p) G(ke::MakeScopeGuard(std::move(*cb))); }
void c23_maker(void* p, Cb* cb) { new (p) GR(ke::MakeScopeGuard(*cb)); }
void c23_gmove(void* p, G* o) { new (p) G(std::move(*o)); }
void c23_gmover(void* p, GR* o) { new (p) GR(std::move(*o)); }
void c23_cancel(G* p) { p->cancel(); }
void c23_cancelr(GR* p) { p->cancel(); }
void c23_end(G* p) { p->~G(); }
void c23_endr(GR* p) { p->~GR(); }
void c23_rav(Tok* p, void* out) { new (out) Tok(ke::ReturnAndVoid(*p)); }
int* c23_ravp(int** p) { return ke::ReturnAndVoid(*p); }
int c23_ravi(int* p) { return ke::ReturnAndVoid(*p); }
}
