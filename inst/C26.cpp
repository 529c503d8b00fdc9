// Vector and deque helpers over an arbitrary element class and an arbitrary predicate, known by their contracts.
#include "tok.h"
#include <amtl/am-vector.h>
#include <amtl/am-deque.h>
struct Pr { bool operator()(const Tok& a) const; };
typedef std::vector<Tok> V;
typedef std::deque<Tok> D;
extern "C" {
extern const size_t v_size = sizeof(V), d_size = sizeof(D);
void v_popback(V* v, void* out) { new (out) Tok(ke::PopBack(v)); }
void v_removeat(V* v, size_t at) { ke::RemoveAt(v, at); }
void v_insert_c(V* v, size_t at, const Tok* t) { ke::InsertAt(v, at, *t); }
void v_insert_m(V* v, size_t at, Tok* t) { ke::InsertAt(v, at, std::move(*t)); }
void v_emplace(V* v, size_t at, uint64_t w) { ke::EmplaceAt(v, at, w); }
void v_emplace_c(V* v, size_t at, const Tok* t) { ke::EmplaceAt(v, at, *t); }
void v_emplace_m(V* v, size_t at, Tok* t) { ke::EmplaceAt(v, at, std::move(*t)); }
void v_extend(V* to, V* from) { ke::MoveExtend(to, from); }
void v_eraseif(V* v, Pr p) { ke::EraseIf(v, p); }
void d_popback(D* v, void* out) { new (out) Tok(ke::PopBack(v)); }
void d_popfront(D* v, void* out) { new (out) Tok(ke::PopFront(v)); }
}
