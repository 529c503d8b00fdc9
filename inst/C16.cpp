#include "tok.h"
#include <amtl/am-fixedarray.h>
// a fallible allocator policy, known by its contract
class AP {
  public:
    uint64_t id;
    AP();
    AP(const AP&);
    void reportOutOfMemory();
    void reportAllocationOverflow();
    void am_free(void*);
    void* am_malloc(size_t);
};
typedef ke::FixedArray<Tok, AP> A;
typedef ke::FixedArray<Tok> S;
typedef std::vector<Tok> V;
extern "C" {
extern const size_t c16_size = sizeof(A);
extern const size_t c16_ssize = sizeof(S);
void c16_def(void* p) { new (p) A(); }
void c16_ctor(void* p, size_t n) { new (p) A(n); }
void c16_ctor_ap(void* p, size_t n, const AP* ap) { new (p) A(n, *ap); }
void c16_copy(void* p, const A* o) { new (p) A(*o); }
void c16_move(void* p, A* o) { new (p) A(std::move(*o)); }
void c16_vec(void* p, const V* o) { new (p) A(*o); }
void c16_vecm(void* p, V* o) { new (p) A(std::move(*o)); }
void c16_dtor(A* a) { a->~A(); }
A* c16_asg(A* a, const A* o) { return &(*a = *o); }
A* c16_asgm(A* a, A* o) { return &(*a = std::move(*o)); }
bool c16_eq(const A* a, const A* b) { return *a == *b; }
bool c16_ne(const A* a, const A* b) { return *a != *b; }
bool c16_init(A* a) { return a->initialize(); }
size_t c16_len(const A* a) { return a->size(); }
bool c16_empty(const A* a) { return a->empty(); }
Tok* c16_buf(const A* a) { return a->buffer(); }
Tok* c16_at(A* a, size_t i) { return &a->at(i); }
const Tok* c16_cat(const A* a, size_t i) { return &a->at(i); }
Tok* c16_idx(A* a, size_t i) { return &(*a)[i]; }
const Tok* c16_cidx(const A* a, size_t i) { return &(*a)[i]; }
Tok* c16_back(A* a) { return &a->back(); }
const Tok* c16_cback(const A* a) { return &a->back(); }
Tok* c16_begin(A* a) { return a->begin(); }
const Tok* c16_cbegin(const A* a) { return a->begin(); }
Tok* c16_end(A* a) { return a->end(); }
const Tok* c16_cend(const A* a) { return a->end(); }
void c16_s_ctor(void* p, size_t n) { new (p) S(n); }
void c16_s_dtor(S* p) { p->~S(); }
size_t c16_s_len(const S* a) { return a->size(); }
Tok* c16_s_buf(const S* a) { return a->buffer(); }
}
