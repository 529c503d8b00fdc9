#include <stddef.h>
#include <stdint.h>
#include <new>
#include <amtl/am-threadlocal.h>
typedef ke::ThreadLocal<int*> L;
typedef ke::ThreadLocal<int> I;
typedef ke::ThreadLocal<uintptr_t> U;
extern "C" {
extern const size_t c24_size = sizeof(L), c24_isize = sizeof(I), c24_usize = sizeof(U);
void l_new(void* p) { new (p) L(); }
int* l_get(const L* p) { return p->get(); }
void l_set(L* p, int* const* v) { p->set(*v); }
bool l_alloc(L* p) { return p->allocate(); }
void l_end(L* p) { p->~L(); }
void l_assign(L* p, int* const* v) { *p = *v; }
int* l_star(const L* p) { return **p; }
int* l_arrow(const L* p) { return p->operator->(); }
bool l_not(const L* p) { return !*p; }
bool l_eq(const L* p, int* const* v) { return *p == *v; }
bool l_ne(const L* p, int* const* v) { return *p != *v; }
void i_new(void* p) { new (p) I(); }
int i_get(const I* p) { return p->get(); }
void i_set(I* p, const int* v) { p->set(*v); }
bool i_alloc(I* p) { return p->allocate(); }
void i_end(I* p) { p->~I(); }
void i_assign(I* p, const int* v) { *p = *v; }
int i_star(const I* p) { return **p; }
int i_arrow(const I* p) { return p->operator->(); }
bool i_not(const I* p) { return !*p; }
bool i_eq(const I* p, const int* v) { return *p == *v; }
bool i_ne(const I* p, const int* v) { return *p != *v; }
void u_new(void* p) { new (p) U(); }
uintptr_t u_get(const U* p) { return p->get(); }
void u_set(U* p, const uintptr_t* v) { p->set(*v); }
bool u_alloc(U* p) { return p->allocate(); }
void u_end(U* p) { p->~U(); }
void u_assign(U* p, const uintptr_t* v) { *p = *v; }
uintptr_t u_star(const U* p) { return **p; }
uintptr_t u_arrow(const U* p) { return p->operator->(); }
bool u_not(const U* p) { return !*p; }
bool u_eq(const U* p, const uintptr_t* v) { return *p == *v; }
bool u_ne(const U* p, const uintptr_t* v) { return *p != *v; }
}
