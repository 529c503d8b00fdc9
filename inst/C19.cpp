#include <stddef.h>
#include <stdint.h>
#include <new>
#include <utility>
#include <amtl/am-refcounting-threadsafe.h>
struct alignas(16) Obj { uint64_t data; void AddRef(); void Release(); };
typedef ke::AtomicRef<Obj> C;
typedef ke::AlreadyRefed<Obj> R;
extern "C" void dying(void* self);
struct Rc : ke::RefcountedThreadsafe<Rc> { uint64_t tag; Rc() {} ~Rc() { dying(this); } };
struct Vrc : ke::VirtualRefcountedThreadsafe { uint64_t tag; Vrc() {} ~Vrc() override { dying(this); } };
struct Fwd : ke::IRefcounted, ke::RefcountedThreadsafe<Fwd> { Fwd() {} ~Fwd() { dying(this); } KE_IMPL_REFCOUNTING_TS(Fwd) };
extern "C" {
extern const size_t c19_csize = sizeof(C), c19_rsize = sizeof(R);
void c_null(void* p) { new (p) C(); }
void c_ctor(void* p, Obj* o) { new (p) C(o); }
void c_dtor(C* p) { p->~C(); }
void c_get(C* p, void* r) { new (r) R(p->get()); }
Obj* r_arrow(const R* p) { return p->operator->(); }
void c_set(C* p, Obj* o) { *p = o; }
Rc* rc_new() { return new Rc(); }
void rc_addref(Rc* p) { p->AddRef(); }
bool rc_release(Rc* p) { return p->Release(); }
void rc_delete(Rc* p) { delete p; }
Vrc* vrc_new() { return new Vrc(); }
void vrc_addref(Vrc* p) { p->AddRef(); }
void vrc_release(Vrc* p) { p->Release(); }
void vrc_iaddref(ke::IRefcounted* p) { p->AddRef(); }
void vrc_irelease(ke::IRefcounted* p) { p->Release(); }
void vrc_delete(ke::IRefcounted* p) { delete p; }
Fwd* fwd_new() { return new Fwd(); }
void fwd_addref(ke::IRefcounted* p) { p->AddRef(); }
void fwd_release(ke::IRefcounted* p) { p->Release(); }
void fwd_delete(ke::IRefcounted* p) { delete p; }
}
