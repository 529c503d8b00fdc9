// Entry points of the hash table for an arbitrary policy, element class and allocator, all known by their contracts.
#pragma once
#include "tok.h"
#include <amtl/am-hashtable.h>
struct AP {
    uint64_t w;
    AP(); AP(const AP&); AP(AP&&);
    void reportOutOfMemory(); void reportAllocationOverflow();
    void* am_malloc(size_t); void am_free(void*);
};
struct Pol {
    typedef Tok Payload;
    static uint32_t hash(const uint64_t& key);
    static bool matches(const uint64_t& key, const Tok& t);
};
typedef ke::HashTable<Pol, AP> H;
typedef H::Result R;
typedef H::Insert I;
typedef H::iterator It;
extern "C" {
extern const size_t ht_size = sizeof(H), ht_entry = sizeof(H::Entry), ht_r = sizeof(R), ht_i = sizeof(I), ht_it = sizeof(It);
extern const size_t ht_cap = offsetof(H, capacity_), ht_nel = offsetof(H, nelements_), ht_ndel = offsetof(H, ndeleted_), ht_tab = offsetof(H, table_), ht_min = offsetof(H, minCapacity_);
extern const size_t ht_hash_off = offsetof(H::Entry, hash_), ht_t_off = offsetof(H::Entry, t_);
extern const size_t ht_it_i = offsetof(It, i_);
extern const size_t ht_max = H::kMaxCapacity, ht_mincap = H::kMinCapacity;
void ht_new(H* t, const AP* ap) { new (t) H(*ap); }
bool ht_init(H* t, size_t n) { return t->init(n); }
bool ht_init0(H* t) { return t->init(); }
void ht_move(H* to, H* from) { new (to) H(std::move(*from)); }
void ht_end(H* t) { t->~H(); }
uint32_t ht_hash(const H* t, const uint64_t* k) { return t->computeHash(*k); }
void ht_find(const H* t, const uint64_t* k, void* out) { new (out) R(t->find(*k)); }
bool ht_found(R* r) { return r->found(); }
Tok* ht_deref(R* r) { return &**r; }
Tok* ht_arrow(R* r) { return r->operator->(); }
void ht_result(void* out, H::Entry* e) { new (out) R(e); }
void ht_insert(void* out, H::Entry* e, uint32_t h) { new (out) I(e, h); }
void ht_findadd(H* t, const uint64_t* k, void* out) { new (out) I(t->findForAdd(*k)); }
void* ht_ientry(I* i) { return &i->entry(); }
bool ht_ifound(I* r) { return r->found(); }
Tok* ht_ideref(I* r) { return &**r; }
uint32_t ht_ihash(I* r) { return r->hash(); }
bool ht_add_move(H* t, I* i, Tok* v) { return t->add(*i, std::move(*v)); }
bool ht_add_copy(H* t, I* i, const Tok* v) { return t->add(*i, *v); }
bool ht_add_none(H* t, I* i) { return t->add(*i); }
void ht_remove(H* t, R* r) { t->remove(*r); }
void ht_remove_key(H* t, const uint64_t* k) { t->removeIfExists(*k); }
bool ht_density(H* t) { return t->checkDensity(); }
void ht_clear(H* t) { t->clear(); }
size_t ht_elements(const H* t) { return t->elements(); }
size_t ht_memory(const H* t) { return t->estimateMemoryUse(); }
AP* ht_ap(H* t) { return &t->allocPolicy(); }
const AP* ht_cap_(const H* t) { return &t->allocPolicy(); }
void ht_iter(void* out, H* t) { new (out) It(t); }
bool ht_iempty(It* i) { return i->empty(); }
Tok* ht_itderef(It* i) { return &**i; }
Tok* ht_itarrow(It* i) { return i->operator->(); }
void ht_next(It* i) { i->next(); }
void ht_erase(It* i) { i->erase(); }
bool ht_change(H* t, uint32_t n) { return t->changeCapacity(n); }
void ht_unique(H* t, uint32_t h, void* out) { new (out) I(t->insertUnique(h)); }
}
