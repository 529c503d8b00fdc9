// PriorityQueue over an arbitrary element class and an arbitrary strict weak ordering, known by their contracts.
#include "tok.h"
#include <amtl/am-priority-queue.h>
struct HP { uint64_t w; HP(); HP(const HP&); HP(HP&&); ~HP(); bool operator()(const Tok& a, const Tok& b) const; };
typedef ke::PriorityQueue<Tok, HP> Q;
extern "C" {
extern const size_t q_size = sizeof(Q), q_vec = offsetof(Q, impl_), q_hp = offsetof(Q, is_higher_priority_);
void q_new(Q* q, const HP* hp) { new (q) Q(*hp); }
void q_new0(Q* q) { new (q) Q(); }
void q_move(Q* to, Q* from) { new (to) Q(std::move(*from)); }
void q_end(Q* q) { q->~Q(); }
void q_add_m(Q* q, Tok* t) { q->add(std::move(*t)); }
void q_add_c(Q* q, const Tok* t) { q->add(*t); }
void q_add_l(Q* q, Tok* t) { q->add(*t); }
void q_emplace(Q* q, uint64_t v) { q->emplace(v); }
void q_emplace_c(Q* q, const Tok* t) { q->emplace(*t); }
bool q_empty(const Q* q) { return q->empty(); }
const Tok* q_peek(const Q* q) { return &q->peek(); }
void q_pop(Q* q, void* out) { new (out) Tok(q->pop()); }
}
