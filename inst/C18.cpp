#include <stddef.h>
#include <stdint.h>
#include <new>
#include <utility>
#include <amtl/am-refcounting.h>
// a counted class, known by the contracts of AddRef and Release
struct Obj { uint64_t data; void AddRef(); void Release(); };
struct Pad { uint64_t pad; };
struct Der : Pad, Obj {};
typedef ke::RefPtr<Obj> P;
typedef ke::RefPtr<Der> PD;
typedef ke::AlreadyRefed<Obj> R;
typedef ke::AlreadyRefed<Der> RD;
extern "C" {
extern const size_t c18_psize = sizeof(P), c18_rsize = sizeof(R), c18_objsize = sizeof(Obj), c18_dersize = sizeof(Der);
// RefPtr
void p_null(void* p) { new (p) P(); }
void p_ctor(void* p, Obj* o) { new (p) P(o); }
void pd_ctor(void* p, Der* o) { new (p) PD(o); }
void p_copy(void* p, const P* q) { new (p) P(*q); }
void p_move(void* p, P* q) { new (p) P(std::move(*q)); }
void p_copy_d(void* p, const PD* q) { new (p) P(*q); }
void p_move_d(void* p, PD* q) { new (p) P(std::move(*q)); }
void p_fromr(void* p, const R* q) { new (p) P(*q); }
void p_fromrd(void* p, const RD* q) { new (p) P(*q); }
void p_dtor(P* p) { p->~P(); }
void pd_dtor(PD* p) { p->~PD(); }
void p_take(P* p, void* r) { new (r) R(p->take()); }
void p_forget(P* p, void* r) { new (r) R(p->forget()); }
P* p_asg_raw(P* p, Obj* o) { return &(*p = o); }
P* p_asg_rawd(P* p, Der* o) { return &(*p = o); }
P* p_asg_null(P* p) { return &(*p = nullptr); }
P* p_asg(P* p, const P* q) { return &(*p = *q); }
P* p_asgm(P* p, P* q) { return &(*p = std::move(*q)); }
P* p_asg_d(P* p, const PD* q) { return &(*p = *q); }
P* p_asgm_d(P* p, PD* q) { return &(*p = std::move(*q)); }
P* p_asg_r(P* p, const R* q) { return &(*p = *q); }
P* p_asg_rd(P* p, const RD* q) { return &(*p = *q); }
P* p_asg_adopt(P* p, Obj* o) { return &(*p = ke::AdoptRef(o)); }
P* p_asg_take(P* p, P* q) { return &(*p = q->take()); }
P* p_asg_new(P* p, Obj* o) { return &(*p = P(o)); }
Obj* p_get(const P* p) { return p->get(); }
Der* pd_get(const PD* p) { return p->get(); }
Obj* p_star(const P* p) { return **p; }
Obj* p_arrow(const P* p) { return p->operator->(); }
Obj* p_conv(P* p) { return *p; }
Obj* p_cconv(const P* p) { return *p; }
Obj* p_ref(P* p) { return &p->operator Obj&(); }
bool p_not(const P* p) { return !*p; }
bool p_bool(const P* p) { return bool(*p); }
Obj** p_byref(P* p) { return p->byref(); }
Obj* const* p_cbyref(const P* p) { return p->byref_const(); }
void** p_addr(P* p) { return p->address(); }
// AlreadyRefed
void r_null(void* p) { new (p) R(nullptr); }
void r_ctor(void* p, Obj* o) { new (p) R(o); }
void rd_ctor(void* p, Der* o) { new (p) RD(o); }
void r_adopt(void* p, Obj* o) { new (p) R(ke::AdoptRef(o)); }
void r_copy(void* p, const R* q) { new (p) R(*q); }
void r_move(void* p, R* q) { new (p) R(std::move(*q)); }
void r_dtor(R* p) { p->~R(); }
void rd_dtor(RD* p) { p->~RD(); }
Obj* r_take(const R* p) { return p->take(); }
bool r_not(const R* p) { return !*p; }
Obj* r_arrow(const R* p) { return p->operator->(); }
Der* rd_arrow(const RD* p) { return p->operator->(); }
bool r_eq(const R* p, Obj* o) { return *p == o; }
bool r_ne(const R* p, Obj* o) { return *p != o; }
}
// the counted bases themselves
extern "C" void dying(void* self);
struct Rc : ke::Refcounted<Rc> { uint64_t tag; Rc() {} ~Rc() { dying(this); } };
struct Vrc : ke::VirtualRefcounted { uint64_t tag; Vrc() {} ~Vrc() override { dying(this); } };
struct Fwd : ke::IRefcounted, ke::Refcounted<Fwd> { Fwd() {} ~Fwd() { dying(this); } KE_IMPL_REFCOUNTING(Fwd) };
extern "C" {
Rc* rc_new() { return new Rc(); }
void rc_addref(Rc* p) { p->AddRef(); }
void rc_release(Rc* p) { p->Release(); }
void rc_delete(Rc* p) { delete p; }
Vrc* vrc_new() { return new Vrc(); }
void vrc_addref(Vrc* p) { p->AddRef(); }
void vrc_release(Vrc* p) { p->Release(); }
void vrc_iaddref(ke::IRefcounted* p) { p->AddRef(); }
void vrc_irelease(ke::IRefcounted* p) { p->Release(); }
void vrc_delete(ke::IRefcounted* p) { delete p; }
Fwd* fwd_new() { return new Fwd(); }
void fwd_addref(ke::IRefcounted* p) { p->AddRef(); }
void fwd_release(ke::IRefcounted* p) { p->Release(); }
void fwd_delete(ke::IRefcounted* p) { delete p; }
}
