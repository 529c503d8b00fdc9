#include "kv.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <amtl/am-inlinelist.h>
struct Item; struct Base { uint64_t tag = 7; };
struct Item : Base, ke::InlineListNode<Item> { uint64_t v = 0; };
typedef ke::InlineList<Item> L; typedef std::vector<Item*> M;
static void same(L& l, const M& m, const char* when) {
    EXPECT(l.length() == m.size(), "%s: length %zu, %zu members", when, l.length(), m.size()); EXPECT(((const L&)l).empty() == m.empty(), "%s: empty", when);
    size_t k = 0; for (auto i = l.begin(); i != l.end(); k++) { EXPECT(k < m.size() && *i == m[k] && i->v == m[k]->v && (*i)->tag == 7, "%s: member %zu", when, k); EXPECT(i == L::iterator(m[k]) && !(i != L::iterator(m[k]))); if (k & 1) ++i; else { auto o = i++; EXPECT(*o == m[k]); } EXPECT(k + 1 < m.size() ? *i == m[k + 1] : i == l.end()); } EXPECT(k == m.size(), "%s: %zu visited", when, k);
    k = m.size(); for (auto i = l.rbegin(); i != l.rend(); ) { EXPECT(k > 0 && *i == m[k - 1] && i->v == m[k - 1]->v, "%s: member %zu in reverse", when, k); k--; EXPECT(i == L::reverse_iterator(m[k]) && !(i != L::reverse_iterator(m[k]))); if (k & 1) ++i; else { auto o = i++; EXPECT(*o == m[k]); } } EXPECT(!k, "%s: %zu not visited in reverse", when, k);
    for (auto p : m) EXPECT(p->isInList(), "%s: a member is not in a list", when);
}
static void history(int n, int items, bool leave) {
    kv::begin("%d operations, %d items:", n, items); std::vector<Item> pool(items); for (int i = 0; i < items; i++) { pool[i].v = 100 + i; EXPECT(!pool[i].isInList(), "new node"); }
    { L l[2]; M m[2]; auto where = [&](Item* p) { for (int j = 0; j < 2; j++) if (std::find(m[j].begin(), m[j].end(), p) != m[j].end()) return j; return -1; };
      for (int q = 0; q < n; q++) {
        Item* p = &pool[kv::rnd(items)]; int w = where(p), op = kv::rnd(10); char b[40]; snprintf(b, sizeof b, " %d(%d in %d)", op, int(p - &pool[0]), w); kv::note(b);
        EXPECT(p->isInList() == (w >= 0), "isInList");
        if (w < 0) { int j = kv::rnd(2); l[j].append(p); m[j].push_back(p); }
        else if (op < 6) { auto at = std::find(m[w].begin(), m[w].end(), p); size_t k = at - m[w].begin(); m[w].erase(at);
            if (op < 2) l[w].remove(p); else if (op < 4) { L::iterator i(p); auto nx = l[w].erase(i); EXPECT(k < m[w].size() ? *nx == m[w][k] : nx == l[w].end(), "position after the erased one"); } else { L::reverse_iterator i(p); auto nx = l[w].erase(i); EXPECT(k > 0 ? *nx == m[w][k - 1] : nx == l[w].rend(), "position before the erased one"); }
            EXPECT(!p->isInList(), "a removed node is in a list"); }
        else if (op == 6 && !kv::rnd(3)) { bool odd = kv::rnd(2); for (auto i = l[w].begin(); i != l[w].end(); ) if ((i->v & 1) == odd) i = l[w].erase(i); else i++; m[w].erase(std::remove_if(m[w].begin(), m[w].end(), [=](Item* x) { return (x->v & 1) == odd; }), m[w].end()); }
        else if (op == 7 && !kv::rnd(3)) { for (auto i = l[w].rbegin(); i != l[w].rend(); ) if (i->v % 3) i = l[w].erase(i); else ++i; m[w].erase(std::remove_if(m[w].begin(), m[w].end(), [=](Item* x) { return x->v % 3; }), m[w].end()); }
        if (n < 60) for (int j = 0; j < 2; j++) same(l[j], m[j], "after an operation"); }
      for (int j = 0; j < 2; j++) same(l[j], m[j], "at the end");
      if (leave) { std::unique_ptr<L> x(new L); M y; for (auto& e : pool) if (!e.isInList()) { x->append(&e); y.push_back(&e); } while (!y.empty()) { size_t k = kv::rnd(y.size()); Item* p = y[k]; p->removeFromParentList(); EXPECT(!p->isInList()); y.erase(y.begin() + k); size_t c = 0; for (auto i = x->begin(); i != x->end(); ++i, c++) EXPECT(c < y.size() && *i == y[c]); EXPECT(c == y.size()); } EXPECT(x->empty()); for (int j = 0; j < 2; j++) same(l[j], m[j], "beside"); } }
    for (auto& e : pool) EXPECT(!e.isInList(), "in a list after it is gone");
}
void kv_main() {
    { kv::begin("raw storage"); alignas(L) static char raw[sizeof(L)]; memset(raw, 0xa5, sizeof raw); L* l = new (raw) L; EXPECT(l->empty() && l->length() == 0 && l->begin() == l->end() && l->rbegin() == l->rend()); Item i; l->append(&i); EXPECT(*l->begin() == &i && *l->rbegin() == &i); l->~L(); }
    while (kv::time_left()) history(1 + kv::rnd(kv::rnd(4) ? 40 : 400), 1 + kv::rnd(kv::rnd(4) ? 6 : 40), kv::rnd(2));
}
