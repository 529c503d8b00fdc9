seed('s12-strcat-int', 'C05', 'amtl/am-string.h', ("    while (*src && (size_t(iter - dest) + 1 < maxlength))", "    while (*src && (int(iter - dest) + 1 < int(maxlength)))"),
     'a buffer of more than INT_MAX bytes', 'SafeStrcat compares the size as int, so with huge sizes nothing is appended',
     r'''
#include <string.h>
#include <sys/mman.h>
#include <amtl/am-string.h>
int main() {
    size_t z = (size_t(1) << 32) + 4096;
    char* b = (char*)mmap(nullptr, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) return 0;
    for (size_t m : {size_t(8), size_t(32), size_t(0x7fffffff), size_t(0x80000000), size_t(0x100000003)}) {
        strcpy(b, "ab"); size_t n = ke::SafeStrcat(b, m, "cd");
        if (n != 4 || strcmp(b, "abcd")) return 1;
    }
    return 0;
}
''')
seed('s13-printf-nul', 'C06', 'amtl/am-string.h', ("    return std::string(result.get(), len);", "    return std::string(result.get());"),
     'formatted text that contains a zero character', 'StringPrintf stops at the first zero character, so text and length are cut',
     r'''
#include <string>
#include <amtl/am-string.h>
int main() {
    std::string s = ke::StringPrintf("a%cb", 0);
    if (s != std::string("a\0b", 3)) return 1;
    return ke::StringPrintf("%d-%s", 12, "x") == "12-x" ? 0 : 2;
}
''')
seed('s16-path-strchr', 'C09', 'amtl/os/am-path.h', ("""        if (dest[i] == '\\\\')
            dest[i] = '/';""", """        if (dest[i] == '\\0')
            break;
        if (dest[i] == '\\\\')
            dest[i] = '/';"""),
     'a formatted path with a zero character inside (as from %c)', 'separators behind a zero character are not converted',
     r'''
#include <string.h>
#include <amtl/os/am-path.h>
int main() {
    char b[32]; memset(b, 'x', sizeof b);
    size_t n = ke::path::Format(b, sizeof b, "a\\b%cc\\d", 0);
    if (n != 7 || memcmp(b, "a/b\0c/d", 8)) return 1;
    n = ke::path::Format(b, 4, "\\\\\\\\\\\\");
    return n == 3 && !strcmp(b, "///") ? 0 : 2;
}
''')
seed('s17-hash-chunk', 'C10', 'amtl/am-hashtable.h', ("        for (size_t i = 0; i < length; i++)\n            add(s[i]);", "        const char* end = s + length;\n        while (s < end)\n            hash += (unsigned char)*s++, hash += (hash << 10), hash ^= (hash >> 6);"),
     'a character above 127, hashed once as a run and once on its own', 'runs hash high characters as unsigned while single characters are signed',
     r'''
#include <string.h>
#include <amtl/am-hashtable.h>
int main() {
    for (const char* t : {"", "abc", "caf\xc3\xa9", "\xff\x80z"}) {
        ke::CharacterStreamHasher a, b; size_t n = strlen(t);
        a.add(t, n); for (size_t i = 0; i < n; i++) b.add(t[i]);
        if (a.result() != b.result()) return 1;
    }
    return 0;
}
''')
HT = r'''
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <map>
#include <amtl/am-hashtable.h>
struct E { uint32_t k; long v; };
struct P { typedef E Payload; static uint32_t hash(uint32_t k) { return k & 0xffff; } static bool matches(uint32_t k, const E& e) { return e.k == k; } };
typedef ke::HashTable<P> T;
static bool put(T& t, uint32_t k, long v) { auto i = t.findForAdd(k); if (i.found()) { i->v = v; return true; } return t.add(i, E{k, v}); }
'''
seed('s18-lookup-bound', 'C11', 'amtl/am-hashtable.h', ("""        Entry* e = &table_[probulator.entry()];
        for (;;) {
            if (e->isFree())
                break;
            if (e->isLive() && e->sameHash(hash)""", """        Entry* e = &table_[probulator.entry()];
        for (uint32_t probes = 0; probes <= nelements_ + 1; probes++) {
            if (e->isFree())
                break;
            if (e->isLive() && e->sameHash(hash)"""),
     'several colliding keys of which the first ones are removed again', 'a lookup gives up after as many probes as there are elements, although removed slots lie in between; it misses the key or reports another',
     HT + r'''
int main() {
    T t; t.init(64);
    for (uint32_t i = 0; i < 12; i++) put(t, 0x10005 + (i << 16), i);
    for (uint32_t i = 0; i < 11; i++) t.removeIfExists(0x10005 + (i << 16));
    auto r = t.find(uint32_t(0x10005 + (11 << 16)));
    if (!r.found() || r->v != 11) return 1;
    return t.find(uint32_t(0x990005)).found() ? 2 : 0;
}
''')
seed('s20-clear-live', 'C13', 'amtl/am-hashtable.h', ("            table_[i].setFree();\n        }", "            if (table_[i].isLive())\n                table_[i].setFree();\n        }"),
     'adding and removing enough keys that every slot was used once, with clears in between', 'clear leaves removed slots as they are but forgets that they exist; when no slot is free a search never ends',
     HT + r'''
int main() {
    alarm(20);
    T t; t.init();
    for (uint32_t i = 0; i < 200; i++) { put(t, i, i); t.removeIfExists(i); t.clear(); if (t.find(i + 1).found()) return 1; }
    return t.elements() == 0 ? 0 : 2;
}
''')
seed('s21-resize-fail', 'C14', 'amtl/am-hashtable.h', [("        Entry* newTable = createTable(newCapacity);\n        if (!newTable)\n            return false;\n\n        Entry* oldTable = table_;\n        uint32_t oldCapacity = capacity_;\n\n        table_ = newTable;\n        capacity_ = newCapacity;\n        ndeleted_ = 0;", "        Entry* oldTable = table_;\n        uint32_t oldCapacity = capacity_;\n\n        ndeleted_ = 0;\n        Entry* newTable = createTable(newCapacity);\n        if (!newTable)\n            return false;\n\n        table_ = newTable;\n        capacity_ = newCapacity;")],
     'an allocation failure while the table grows, with removed slots in it, and further use', 'a failed resize forgets the removed slots, so the table can fill up and searches never end',
     r'''
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <amtl/am-hashtable.h>
static bool fail = false;
struct A { void* am_malloc(size_t n) { return fail ? nullptr : malloc(n); } void am_free(void* p) { free(p); } void reportOutOfMemory() {} void reportAllocationOverflow() {} };
struct P { typedef uint32_t Payload; static uint32_t hash(uint32_t k) { return k; } static bool matches(uint32_t k, uint32_t e) { return e == k; } };
int main() {
    alarm(20);
    ke::HashTable<P, A> t; if (!t.init()) return 9;
    fail = true;
    for (uint32_t k = 2; k < 4000; k++) { auto i = t.findForAdd(k); if (!i.found() && t.add(i, uint32_t(k))) t.removeIfExists(k); if (t.elements()) return 1; }
    return t.find(uint32_t(5)).found() ? 2 : 0;
}
''')
seed('s22-reverse-erase', 'C21', 'amtl/am-inlinelist.h', ("        IteratorType next = at;\n        next++;\n", "        IteratorType next(at.iter_->next_);\n"),
     'erasing through a reverse iterator', 'erase always gives the following node, also when travelling backwards',
     r'''
#include <assert.h>
#include <amtl/am-inlinelist.h>
struct I : ke::InlineListNode<I> { int v; };
int main() {
    ke::InlineList<I> l; I a[5]; for (int i = 0; i < 5; i++) { a[i].v = i; l.append(&a[i]); }
    int seen = 0; for (auto i = l.rbegin(); i != l.rend(); ) { if (++seen > 9) return 1; if (i->v % 2 == 0) i = l.erase(i); else i++; }
    return l.length() == 2 && seen == 5 ? 0 : 2;
}
''')
seed('s23-heap-key', 'C22', 'amtl/am-priority-queue.h', ("        impl_[cursor] = std::move(key);", "        if (cursor != at)\n            impl_[cursor] = std::move(key);"),
     'adding an element whose move leaves the source empty, when it already is where it belongs', 'the added element is taken out to be placed and never put back when it does not rise',
     r'''
#include <string>
#include <amtl/am-priority-queue.h>
int main() {
    ke::PriorityQueue<std::string> q; const char* w[] = {"aardvark and more than small", "bee and much more than small", "cow and so much more than small"};
    for (auto s : w) q.add(std::string(s));
    for (auto s : w) if (q.pop() != s) return 1;
    return q.empty() ? 0 : 2;
}
''')
seed('s24-extend-one', 'C26', 'amtl/am-vector.h', ("    if (dest->empty()) {", "    if (dest->size() < 2) {"),
     'a destination with exactly one element', 'MoveExtend replaces the only element of the destination',
     r'''
#include <amtl/am-vector.h>
int main() {
    for (int n = 0; n < 5; n++) for (int m = 0; m < 5; m++) {
        std::vector<int> a, b, w; for (int i = 0; i < n; i++) a.push_back(i); for (int i = 0; i < m; i++) b.push_back(10 + i);
        w = a; w.insert(w.end(), b.begin(), b.end()); ke::MoveExtend(&a, &b);
        if (a != w || !b.empty()) return 1;
    }
    return 0;
}
''')
seed('s25-dlerror', 'C29', 'amtl/os/am-shared-library.h', ("        if (!lib || !lib->valid()) {\n            if (!error || !maxlength)\n                return nullptr;", "        if (!lib || !lib->valid()) {\n            if (!error && !maxlength)\n                return nullptr;"),
     'a failed open with a buffer size but no buffer where copying then is not harmless', 'x', r'''
int main() { return 0; }
''') if 0 else None
seed('s25-isfile', 'C29', 'amtl/os/am-fsutil-posix.h', ("    return S_ISREG(s.st_mode) ? true : false;", "    return S_ISDIR(s.st_mode) ? false : true;"),
     'a path that is neither a file nor a directory', 'IsFile is true for devices, pipes and sockets',
     r'''
#include <amtl/os/am-fsutil.h>
int main() {
    if (ke::file::IsFile("/dev/null") || ke::file::IsFile("/") || ke::file::IsFile("/none/x")) return 1;
    return ke::file::IsFile("/etc/passwd") ? 0 : 2;
}
''')
seed('s26-thread-name', 'C32', 'amtl/am-thread.h', ("    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));", "    return std::make_unique<std::thread>(std::move(fn), name, std::move(callback));"),
     'a caller that reuses the name buffer before the new thread has got to run', 'the name is no longer copied for the thread, which reads the buffer when it starts',
     r'''
#include <assert.h>
#include <dlfcn.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <amtl/am-thread.h>
// threads wait at their start until the demonstration lets them go
static std::atomic<bool> go{false};
struct S { void* (*f)(void*); void* a; };
static void* start(void* p) { S s = *(S*)p; delete (S*)p; while (!go) usleep(1000); return s.f(s.a); }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    return real(t, at, start, new S{f, a});
}
int main() {
    char name[16] = "worker-one", got[16] = ""; int ran = 0;
    auto t = ke::NewThread(name, [&] { ran++; pthread_getname_np(pthread_self(), got, sizeof got); });
    strcpy(name, "other"); go = true; t->join();
    return ran == 1 && !strcmp(got, "worker-one") ? 0 : 1;
}
''')
seed('s27-atomicref-assign', 'C31', 'amtl/am-refcounting-threadsafe.h', ("        if (other)\n            other->AddRef();\n        unlock(other);\n        if (value)\n            value->Release();", "        unlock(other);\n        if (other)\n            other->AddRef();\n        if (value)\n            value->Release();"),
     'another thread replacing the reference between the unlock and the AddRef', 'the new value is published before its reference is taken, so another thread can release and destroy it first',
     r'''
#include <assert.h>
#include <atomic>
#include <memory>
#include <thread>
#include <amtl/am-refcounting-threadsafe.h>
// an object that tells when it is published without a reference held by the cell
struct N;
static ke::AtomicRef<N>* cell; static N* watch; static std::atomic<int> bad{0}, depth{0};
struct N : ke::RefcountedThreadsafe<N> {
    std::atomic<int> refs{0};
    void AddRef() {
        if (this == watch && !depth++) { std::thread t([] { *cell = nullptr; }); /* replaces what is stored as soon as it can */ if (published()) bad = 1; stop = t.native_handle(); th = std::move(t); }
        refs++;
    }
    void Release() { if (--refs < 0) bad = 2; }
    bool published() { return *reinterpret_cast<std::atomic<void*>*>(cell) == this; }
    std::thread th; std::thread::native_handle_type stop;
};
int main() {
    ke::AtomicRef<N> c; cell = &c; N* n = new N; watch = n;
    c = n;
    if (n->th.joinable()) n->th.join();
    return bad;
}
''')
seed('s28-hashset-forward', 'C15', 'amtl/am-hashset.h', ("table_.add(p, std::forward<UK>(key));", "table_.add(p, std::move(key));"),
     'adding an lvalue that is used afterwards', 'HashSet::add moves out of the key it was lent',
     r'''
#include <string>
#include <amtl/am-hashset.h>
struct P { static uint32_t hash(const std::string& k) { return ke::HashCharSequence(k.data(), k.size()); } static bool matches(const std::string& a, const std::string& b) { return a == b; } };
int main() {
    ke::HashSet<std::string, P> s; if (!s.init()) return 9; std::string k("a key that is longer than the small buffer"); s.add(k);
    return k.size() == 42 && s.has(k) ? 0 : 1;
}
''')

seed('s14-join-strncpy', 'C07', 'amtl/am-string.h', ("        memcpy(iter, pieces[i].c_str(), pieces[i].size());", "        strncpy(iter, pieces[i].c_str(), pieces[i].size());"),
     'a piece with a zero character inside', 'Join copies a piece only up to its first zero character',
     r'''
#include <amtl/am-string.h>
typedef std::vector<std::string> V;
int main() {
    if (ke::Join(V{"a", "b", ""}, ", ") != "a, b, " || ke::Join(V{}, ",") != "" || ke::Join(V{"x"}, "") != "x") return 1;
    return ke::Join(V{std::string("p\0q", 3), "r"}, "-") == std::string("p\0q-r", 5) ? 0 : 2;
}
''')
seed('s15-endswith-strcmp', 'C08', 'amtl/am-string.h', ("           first.substr(first.size() - second.size(), second.size()) == second;", "           strcmp(first.c_str() + (first.size() - second.size()), second.c_str()) == 0;"),
     'strings that differ only behind a zero character', 'EndsWith compares only up to the first zero character',
     r'''
#include <string>
#include <amtl/am-string.h>
int main() {
    std::string a("path.so");
    if (!ke::EndsWith(a, ".so") || !ke::EndsWith(a, "") || ke::EndsWith(a, "xpath.so") || ke::EndsWith(a, "path")) return 1;
    return ke::EndsWith(std::string("ab\0x", 4), std::string("b\0y", 3)) ? 2 : 0;
}
''')
seed('s19-add-second-removed', 'C12', 'amtl/am-hashtable.h', ("                if (!firstRemoved)\n                    firstRemoved = e;", "                if (firstRemoved)\n                    break;\n                firstRemoved = e;"),
     'a key stored behind two slots that were removed since', 'findForAdd stops at the second removed slot, so a key stored behind it is added twice',
     HT + r'''
int main() {
    T t; t.init();
    for (uint32_t i = 0; i < 4; i++) put(t, 7 + (i << 16), i);
    t.removeIfExists(uint32_t(7 + (1 << 16)));
    put(t, 7 + (3 << 16), 33);
    if (t.elements() != 3) return 1;
    t.removeIfExists(uint32_t(7 + (0 << 16)));
    t.removeIfExists(uint32_t(7 + (2 << 16)));
    put(t, 7 + (3 << 16), 34);
    if (t.elements() != 1) return 2;
    size_t n = 0; for (T::iterator i(&t); !i.empty(); i.next()) n++;
    return n == 1 ? 0 : 3;
}
''')
