#include "kv.h"
#include <amtl/am-bits.h>
typedef unsigned __int128 u128;
static int hi(uint64_t n) { for (int i = 63; i >= 0; i--) if (n >> i & 1) return i; return -1; }
static int lo(uint64_t n) { for (int i = 0; i < 64; i++) if (n >> i & 1) return i; return -1; }
template <int N> static void bits(uint64_t p, uint64_t b) {
    p &= ~((1ull << N) - 1); b &= (1ull << N) - 1;
    kv::begin("pointer bits<%d> ptr %llx bits %llx", N, (unsigned long long)p, (unsigned long long)b);
    int* q = ke::SetPointerBits((int*)p, b);
    EXPECT(ke::GetPointerBits<N>(q) == b);
    EXPECT((ke::ClearPointerBits<N>(q)) == (int*)p);
}
static void one(uint64_t x, uint64_t y) {
    kv::begin("n = %llu", (unsigned long long)x);
    EXPECT(ke::IsPowerOfTwo(x) == (x && hi(x) == lo(x)), "IsPowerOfTwo");
    if (x) {
        EXPECT((int)ke::Log2(x) == hi(x), "Log2");
        EXPECT((int)ke::FindLeftmostBit64(x) == hi(x), "FindLeftmostBit64");
        EXPECT((int)ke::FindRightmostBit(x) == lo(x), "FindRightmostBit");
    }
    if (uint32_t(x)) EXPECT((int)ke::FindLeftmostBit32(uint32_t(x)) == hi(uint32_t(x)), "FindLeftmostBit32");
    for (int k = 0; k < 64; k++) {
        uint64_t a = 1ull << k;
        kv::begin("value %llu alignment 2^%d", (unsigned long long)x, k);
        u128 up = (u128(x) + a - 1) / a * a;
        if (up <= ~0ull) EXPECT(ke::Align(x, a) == uint64_t(up), "Align gave %llu", (unsigned long long)ke::Align(x, a));
        EXPECT(ke::IsAligned(x, a) == (x % a == 0));
        EXPECT(ke::IsAligned((void*)x, a) == (x % a == 0));
        EXPECT(ke::IsAligned(uint32_t(x), a) == (uint32_t(x) % a == 0));
        EXPECT((uint64_t)ke::AlignedBase((void*)x, a) == x / a * a);
    }
    bits<1>(x, y); bits<2>(x, y); bits<3>(x, y); bits<4>(x, y); bits<12>(x, y); bits<30>(x, y);
}
void kv_main() {
    auto v = kv::ints(64);
    for (uint64_t a : v) for (int i = 0; i < 8; i++) { one(a, ~0ull); one(a, kv::rnd()); }
    while (kv::time_left()) for (int i = 0; i < 100; i++) one(kv::rnd() >> kv::rnd(64), kv::rnd());
}
