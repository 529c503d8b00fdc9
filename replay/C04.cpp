#include "kv.h"
#include <amtl/am-float.h>
template <typename T, typename U> static void one(U a, U b) {
    kv::begin("%zu-bit float patterns %llx, %llx", sizeof(U) * 8, (unsigned long long)a, (unsigned long long)b);
    T x, y;
    memcpy(&x, &a, sizeof x); memcpy(&y, &b, sizeof y);
    const int M = sizeof(U) == 4 ? 23 : 52;
    U e = (a << 1) >> (M + 1), m = a & ((U(1) << M) - 1), ones = sizeof(U) == 4 ? 0xff : 0x7ff;
    EXPECT(ke::IsNaN(x) == (e == ones && m != 0), "IsNaN");
    EXPECT(ke::IsInfinite(x) == (e == ones && m == 0), "IsInfinite");
    T r = ke::FloatModulo(x, y), w = T(::fmod(double(x), double(y)));
    EXPECT((r != r && w != w) || memcmp(&r, &w, sizeof r) == 0, "FloatModulo(%g, %g) = %g", double(x), double(y), double(r));
}
void kv_main() {
    std::vector<uint64_t> v;
    for (uint64_t e : {0, 1, 126, 127, 128, 150, 254, 255}) for (uint64_t m : {0u, 1u, 0x400000u, 0x7fffffu, 0x123456u}) for (int s = 0; s < 2; s++) v.push_back(uint64_t(s) << 31 | e << 23 | m);
    for (auto a : v) for (auto b : v) one<float, uint32_t>(a, b);
    v.clear();
    for (uint64_t e : {0, 1, 1022, 1023, 1024, 1100, 2046, 2047}) for (uint64_t m : {0ull, 1ull, 1ull << 51, (1ull << 52) - 1, 1ull << 32, 0xffffffffull}) for (int s = 0; s < 2; s++) v.push_back(uint64_t(s) << 63 | e << 52 | m);
    for (auto a : v) for (auto b : v) one<double, uint64_t>(a, b);
    auto w = kv::ints(64);
    for (auto a : w) { one<double, uint64_t>(a, kv::rnd()); one<float, uint32_t>(a, kv::rnd()); }
    while (kv::time_left()) for (int i = 0; i < 1000; i++) {
        one<double, uint64_t>(kv::rnd(), kv::rnd()); one<float, uint32_t>(kv::rnd(), kv::rnd());
        uint64_t x = kv::rnd(); one<double, uint64_t>(x, x ^ (1ull << kv::rnd(64))); one<double, uint64_t>(x | 0x7ffull << 52, x);
        one<float, uint32_t>(x | 0x7f800000, x >> 32);
    }
}
