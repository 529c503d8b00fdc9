// FLAGS: -fsanitize=shift,signed-integer-overflow
#include "kv.h"
#include <amtl/am-hashtable.h>
#include <memory>
using namespace ke;
static uint32_t oaat(const signed char* s, size_t n) { uint32_t h = 0; for (size_t i = 0; i < n; i++) { h += (uint32_t)(int32_t)s[i]; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; return h; }
static uint32_t sdbm(const signed char* s, size_t n) { uint32_t h = 0; for (size_t i = 0; i < n; i++) h = (uint32_t)(int32_t)s[i] + h * 65599u; return h; }
static uint32_t sar(uint32_t a, int n) { return (a >> n) | (a >> 31 ? ~(~0u >> n) : 0); }
static uint32_t i32(uint32_t a) { a = (a ^ 61) ^ sar(a, 16); a = a * 9; a ^= sar(a, 4); a *= 0x27d4eb2d; return a ^ sar(a, 15); }
static uint32_t i64(uint64_t k) { k = ~k + (k << 18); k ^= k >> 31; k *= 21; k ^= k >> 11; k += k << 6; k ^= k >> 22; return (uint32_t)k; }
void kv_main() {
    auto v32 = kv::ints(32); auto v64 = kv::ints(64);
    for (auto v : v32) { kv::begin("32-bit %#llx", (unsigned long long)v); EXPECT(HashInt32((int32_t)v) == i32((uint32_t)v)); EXPECT(HashInteger<4>(v) == i32((uint32_t)v)); for (auto w : v32) { kv::begin("combine %#llx %#llx", (unsigned long long)v, (unsigned long long)w); EXPECT(HashCombine(v, w) == ((uint32_t)v ^ ((uint32_t)w + 0x9e3779b9u + ((uint32_t)v << 6) + ((uint32_t)w >> 2)))); } }
    for (auto v : v64) { kv::begin("64-bit %#llx", (unsigned long long)v); EXPECT(HashInt64((int64_t)v) == i64(v)); EXPECT(HashInteger<8>(v) == i64(v)); EXPECT(HashPointer((void*)v) == i64(v)); }
    while (kv::time_left()) {
        size_t n = kv::rnd(kv::rnd(4) ? 20 : 3000);
        std::unique_ptr<char[]> s(new char[n]); bool ascii = kv::rnd(2); for (size_t i = 0; i < n; i++) s[i] = ascii ? 32 + kv::rnd(95) : kv::rnd(256);
        std::string d(s.get(), n < 60 ? n : 60); kv::begin("%zu bytes %s", n, kv::esc(d).c_str());
        uint32_t w = oaat((signed char*)s.get(), n);
        EXPECT(HashCharSequence(s.get(), n) == w); EXPECT(FastHashCharSequence(s.get(), n) == sdbm((signed char*)s.get(), n));
        CharacterStreamHasher a, b; for (size_t i = 0; i < n; i++) a.add(s[i]); EXPECT(a.result() == w, "one at a time");
        std::string cuts; for (size_t i = 0; i < n;) { size_t k = kv::rnd(n - i + 1); b.add(s.get() + i, k); i += k; if (!k && kv::rnd(3) == 0) b.add(s[i++]); } EXPECT(b.result() == w, "in chunks");
        uint64_t r = kv::rnd() >> kv::rnd(64); kv::begin("%#llx", (unsigned long long)r); EXPECT(HashInt32((int32_t)r) == i32((uint32_t)r) && HashInt64((int64_t)r) == i64(r));
    }
}
