// InlineList of items that have the link node as their second base, and walks over a list with an unknown visitor.
#include <stddef.h>
#include <stdint.h>
#include <new>
#include <amtl/am-inlinelist.h>
struct Base { uint64_t b; };
struct Item : public Base, public ke::InlineListNode<Item> { uint64_t v; };
typedef ke::InlineList<Item> L;
typedef ke::InlineListNode<Item> N;
// where a list can be: its head lies in an element like the link node of an item
struct Place { uint64_t b; L list; };
void visit(Item* i);
extern "C" {
extern const size_t l_item = sizeof(Item), l_place = sizeof(Place), l_node = (size_t)static_cast<N*>((Item*)64) - 64;
extern const size_t l_next = offsetof(N, next_), l_prev = offsetof(N, prev_), l_head = offsetof(L, head_), l_len = offsetof(L, length_), l_v = offsetof(Item, v);
void l_new(L* l) { new (l) L(); }
void l_end(L* l) { l->~L(); }
void l_append(L* l, Item* i) { l->append(i); }
void l_remove(L* l, Item* i) { l->remove(i); }
Item* l_erase(L* l, Item* i) { L::iterator it(i); return *l->erase(it); }
Item* l_rerase(L* l, Item* i) { L::reverse_iterator it(i); return *l->erase(it); }
bool l_empty(const L* l) { return l->empty(); }
size_t l_length(const L* l) { return l->length(); }
Item* l_begin(L* l) { return *l->begin(); }
Item* l_end_(L* l) { return *l->end(); }
Item* l_rbegin(L* l) { return *l->rbegin(); }
Item* l_rend(L* l) { return *l->rend(); }
Item* it_pre(Item* i) { L::iterator it(i); return *++it; }
Item* it_after(Item* i) { L::iterator it(i); ++it; return it.operator->(); }
Item* it_post(Item* i) { L::iterator it(i); return *it++; }
Item* it_post_after(Item* i) { L::iterator it(i); it++; return *it; }
Item* rit_pre(Item* i) { L::reverse_iterator it(i); return *++it; }
Item* rit_after(Item* i) { L::reverse_iterator it(i); ++it; return it.operator->(); }
Item* rit_post(Item* i) { L::reverse_iterator it(i); return *it++; }
Item* rit_post_after(Item* i) { L::reverse_iterator it(i); it++; return *it; }
bool it_eq(Item* a, Item* b) { return L::iterator(a) == L::iterator(b); }
bool it_ne(Item* a, Item* b) { return L::iterator(a) != L::iterator(b); }
bool rit_eq(Item* a, Item* b) { return L::reverse_iterator(a) == L::reverse_iterator(b); }
bool rit_ne(Item* a, Item* b) { return L::reverse_iterator(a) != L::reverse_iterator(b); }
void l_walk(L* l) { for (L::iterator i = l->begin(); i != l->end(); ++i) visit(*i); }
void l_rwalk(L* l) { for (L::reverse_iterator i = l->rbegin(); i != l->rend(); i++) visit(*i); }
void n_new(N* n) { new (n) N(); }
bool n_in(const Item* i) { return i->isInList(); }
void n_leave(Item* i) { i->removeFromParentList(); }
}
