#include "kv.h"
#include <amtl/am-bits.h>
#include <amtl/am-arithmetic.h>
typedef unsigned __int128 u128;
#define PRED(f, T, op) do { \
    T a = x, b = y; \
    kv::begin(#f "(%llu, %llu)", (unsigned long long)a, (unsigned long long)b); \
    bool fits = (u128(a) op u128(b)) <= u128(T(~T(0))); \
    bool r = ke::f(a, b); \
    EXPECT(r == fits, "got %d", (int)r); } while (0)
#define TRY(f, T, op) do { \
    T a = x, b = y, out = T(0x5a5a5a5a5a5a5a5aull); \
    kv::begin(#f "(%llu, %llu)", (unsigned long long)a, (unsigned long long)b); \
    bool fits = (u128(a) op u128(b)) <= u128(T(~T(0))); \
    bool r = ke::f(a, b, &out); \
    EXPECT(r == fits, "got %d", (int)r); \
    EXPECT(out == (r ? T(a op b) : T(0x5a5a5a5a5a5a5a5aull)), "output %llu", (unsigned long long)out); } while (0)
static void one(uint64_t x, uint64_t y) {
    PRED(IsUint32AddSafe, uint32_t, +);
    PRED(IsUint64AddSafe, uint64_t, +);
    PRED(IsUintPtrAddSafe, size_t, +);
    PRED(IsUint32MultiplySafe, uint32_t, *);
    PRED(IsUint64MultiplySafe, uint64_t, *);
    PRED(IsUintPtrMultiplySafe, size_t, *);
    PRED(IsUintAddSafe<uint32_t>, uint32_t, +);
    PRED(IsUintAddSafe<uint64_t>, uint64_t, +);
    PRED(IsUintMultiplySafe<uint32_t>, uint32_t, *);
    PRED(IsUintMultiplySafe<uint64_t>, uint64_t, *);
    TRY(TryUint32Add, uint32_t, +);
    TRY(TryUint64Add, uint64_t, +);
    TRY(TryUint64Multiply, uint64_t, *);
}
void kv_main() {
    for (int w : {32, 64}) {
        auto v = kv::ints(w);
        for (uint64_t a : v)
            for (uint64_t b : v) {
                one(a, b);
                if (w == 32) one(a, a ? 0xffffffffull / a + (b & 1) : b);
                else one(a, a ? ~0ull / a + (b & 1) : b);
            }
    }
    while (kv::time_left())
        for (int i = 0; i < 1000; i++) {
            uint64_t a = kv::rnd() >> kv::rnd(64), b = kv::rnd() >> kv::rnd(64);
            one(a, b);
            one(a, a ? ~0ull / a + kv::rnd(3) - 1 : b);
            one(a & 0xffffffff, uint32_t(a) ? 0xffffffffull / uint32_t(a) + kv::rnd(3) - 1 : b);
            one(a, -a + kv::rnd(3) - 1);
        }
}
