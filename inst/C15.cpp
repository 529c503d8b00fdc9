// HashMap and HashSet over arbitrary key and value classes, policy and allocator, all known by their contracts.
#include <stddef.h>
#include <stdint.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#define TOKCLASS(T) struct T { uint64_t v; T(); T(const T&); T(T&&); ~T(); T& operator=(const T&); T& operator=(T&&); };
TOKCLASS(Key)
TOKCLASS(Val)
struct AP {
    uint64_t w;
    AP(); AP(const AP&); AP(AP&&);
    void reportOutOfMemory(); void reportAllocationOverflow();
    void* am_malloc(size_t); void am_free(void*);
};
struct HP {
    static uint32_t hash(const uint64_t& key);
    static bool matches(const uint64_t& key, const Key& k);
    static uint32_t hash(const Key& key);
    static bool matches(const Key& key, const Key& k);
};
typedef ke::HashMap<Key, Val, HP, AP> Mp;
typedef ke::HashSet<Key, HP, AP> St;
typedef Mp::Internal::Entry ME;
typedef St::Internal::Entry SE;
typedef Mp::Policy::Payload MP;
extern "C" {
extern const size_t cm_size = sizeof(Mp), cs_size = sizeof(St), cm_table = offsetof(Mp, table_), cs_table = offsetof(St, table_);
extern const size_t cm_entry = sizeof(ME), cs_entry = sizeof(SE), cm_t = offsetof(ME, t_), cs_t = offsetof(SE, t_), cm_h = offsetof(ME, hash_), cs_h = offsetof(SE, hash_);
extern const size_t cm_key = offsetof(MP, key), cm_val = offsetof(MP, value), cm_pay = sizeof(MP);
extern const size_t c_cap = offsetof(Mp::Internal, capacity_), c_nel = offsetof(Mp::Internal, nelements_), c_ndel = offsetof(Mp::Internal, ndeleted_), c_tab = offsetof(Mp::Internal, table_), c_min = offsetof(Mp::Internal, minCapacity_);
extern const size_t cm_ins = sizeof(Mp::Insert), cm_res = sizeof(Mp::Result), cm_it = sizeof(Mp::iterator), c_max = Mp::Internal::kMaxCapacity, c_mincap = Mp::Internal::kMinCapacity;
#define COMMON(P, M) \
void P##_new(M* m, const AP* ap) { new (m) M(*ap); } \
void P##_new0(M* m) { new (m) M(); } \
void P##_move(M* to, M* from) { new (to) M(std::move(*from)); } \
void P##_end(M* m) { m->~M(); } \
bool P##_init(M* m, size_t n) { return m->init(n); } \
bool P##_init0(M* m) { return m->init(); } \
void P##_find(M* m, const uint64_t* k, void* out) { new (out) M::Result(m->find(*k)); } \
bool P##_found(M::Result* r) { return r->found(); } \
void P##_findadd(M* m, const uint64_t* k, void* out) { new (out) M::Insert(m->findForAdd(*k)); } \
void P##_removekey(M* m, const uint64_t* k) { m->removeIfExists(*k); } \
void P##_remove(M* m, M::Result* r) { m->remove(*r); } \
bool P##_add0(M* m, M::Insert* i) { return m->add(*i); } \
void P##_clear(M* m) { m->clear(); } \
void P##_iter(M* m, void* out) { new (out) M::iterator(m->iter()); } \
size_t P##_elements(const M* m) { return m->elements(); } \
size_t P##_memory(const M* m) { return m->estimateMemoryUse(); } \
AP* P##_ap(M* m) { return &m->allocPolicy(); } \
const AP* P##_cap(const M* m) { return &m->allocPolicy(); } \
uint32_t P##_phash(const uint64_t* k) { return M::Policy::hash(*k); } \
bool P##_pmatch(const uint64_t* k, const M::Policy::Payload* p) { return M::Policy::matches(*k, *p); } \
void P##_pmove(void* to, M::Policy::Payload* p) { new (to) M::Policy::Payload(std::move(*p)); } \
void P##_pend(M::Policy::Payload* p) { typedef M::Policy::Payload T; p->~T(); }
COMMON(cm, Mp)
COMMON(cs, St)
void cm_cfind(const Mp* m, const uint64_t* k, void* out) { new (out) Mp::Result(m->find(*k)); }
bool cm_add_mm(Mp* m, Mp::Insert* i, Key* k, Val* v) { return m->add(*i, std::move(*k), std::move(*v)); }
bool cm_add_cc(Mp* m, Mp::Insert* i, const Key* k, const Val* v) { return m->add(*i, *k, *v); }
bool cm_add_mc(Mp* m, Mp::Insert* i, Key* k, const Val* v) { return m->add(*i, std::move(*k), *v); }
bool cm_add_m(Mp* m, Mp::Insert* i, Key* k) { return m->add(*i, std::move(*k)); }
bool cm_add_ll(Mp* m, Mp::Insert* i, Key* k, Val* v) { return m->add(*i, *k, *v); }
bool cm_add_l(Mp* m, Mp::Insert* i, Key* k) { return m->add(*i, *k); }
bool cs_add_l(St* m, St::Insert* i, Key* k) { return m->add(*i, *k); }
void cs_addkey_l(St* m, Key* k) { m->add(*k); }
bool cm_add_c(Mp* m, Mp::Insert* i, const Key* k) { return m->add(*i, *k); }
MP* cm_deref(Mp::Result* r) { return &**r; }
MP* cm_ideref(Mp::Insert* r) { return &**r; }
Key* cs_deref(St::Result* r) { return &**r; }
bool cs_add_m(St* m, St::Insert* i, Key* k) { return m->add(*i, std::move(*k)); }
bool cs_add_c(St* m, St::Insert* i, const Key* k) { return m->add(*i, *k); }
void cs_addkey_m(St* m, Key* k) { m->add(std::move(*k)); }
void cs_addkey_c(St* m, const Key* k) { m->add(*k); }
bool cs_has(St* m, const uint64_t* k) { return m->has(*k); }
uint32_t ptr_hash(int* p) { return ke::PointerPolicy<int>::hash(p); }
bool ptr_match(int* p, int* q) { return ke::PointerPolicy<int>::matches(p, q); }
}
