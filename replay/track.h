#pragma once
#include "kv.h"
#include <unordered_map>
// keeps the book-keeping out of operator new
template <typename T> struct MallocAlloc {
    typedef T value_type;
    MallocAlloc() {}
    template <typename U> MallocAlloc(const MallocAlloc<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template <typename U> bool operator==(const MallocAlloc<U>&) const { return true; }
    template <typename U> bool operator!=(const MallocAlloc<U>&) const { return false; }
};
typedef std::unordered_map<const void*, int, std::hash<const void*>, std::equal_to<const void*>, MallocAlloc<std::pair<const void* const, int>>> LiveMap;
// element type that checks its own life cycle
struct Trk {
    static LiveMap& live() { static LiveMap m; return m; }
    static inline long made, killed, copies, moves;
    static constexpr uint64_t DEF = 0xdef;
    static constexpr uint64_t MOVED = 0xdead;
    uint64_t v;
    void born() { if (!live().emplace(this, 1).second) kv::fail("element constructed over a live element"); made++; }
    void check() const { if (!live().count(this)) kv::fail("use of an element that is not alive"); }
    Trk() : v(DEF) { born(); }
    explicit Trk(uint64_t n) : v(n) { born(); }
    Trk(const Trk& o) { o.check(); v = o.v; born(); copies++; }
    Trk(Trk&& o) { o.check(); v = o.v; o.v = MOVED; born(); moves++; }
    ~Trk() { if (!live().erase(this)) kv::fail("element destroyed that is not alive"); killed++; v = 0xbad; }
    Trk& operator=(const Trk& o) { check(); o.check(); v = o.v; copies++; return *this; }
    Trk& operator=(Trk&& o) { check(); o.check(); uint64_t x = o.v; if (this != &o) o.v = MOVED; v = x; moves++; return *this; }
    bool operator==(const Trk& o) const { check(); o.check(); return v == o.v; }
    bool operator!=(const Trk& o) const { check(); o.check(); return v != o.v; }
    bool operator<(const Trk& o) const { check(); o.check(); return v < o.v; }
    static size_t count() { return live().size(); }
};
