#include "kv.h"
#include <amtl/am-flags.h>
enum class E8 : uint8_t {}; enum class E16 : int16_t {}; enum class E32 : uint32_t {}; enum class S32 : int32_t {}; enum class E64 : uint64_t {};
KE_DEFINE_ENUM_OPERATORS(E8) KE_DEFINE_ENUM_OPERATORS(E16) KE_DEFINE_ENUM_OPERATORS(E32) KE_DEFINE_ENUM_OPERATORS(S32) KE_DEFINE_ENUM_OPERATORS(E64)
KE_DEFINE_ENUM_COMPARATORS(E8, uint8_t) KE_DEFINE_ENUM_COMPARATORS(E16, int16_t) KE_DEFINE_ENUM_COMPARATORS(E32, uint32_t)
KE_DEFINE_ENUM_COMPARATORS(S32, int32_t) KE_DEFINE_ENUM_COMPARATORS(E64, uint64_t)
template <typename E, typename U> static void one(U a, U b) {
    kv::begin("%zu-bit flags %llx, %llx", sizeof(U) * 8, (unsigned long long)a, (unsigned long long)b);
    typedef ke::Flags<E> F;
    const F x((E)a), y((E)b);
    EXPECT((U)(x + y).bits() == U(a | b)); EXPECT((U)(x | y).bits() == U(a | b)); EXPECT((U)(x & y).bits() == U(a & b));
    EXPECT((U)(x ^ y).bits() == U(a ^ b)); EXPECT((U)(x - y).bits() == U(a & ~b));
    EXPECT(bool(x) == (a != 0)); EXPECT(!x == (a == 0)); EXPECT((x == y) == (a == b)); EXPECT((x != y) == (a != b));
    EXPECT((U)x.bits() == a && (U)x.get() == a && (U)y.bits() == b);
    EXPECT((U)F().bits() == 0); EXPECT((U)F(x).get() == a);
#define A(op, e) { F z(x); F& r = (z op y); EXPECT(&r == &z); EXPECT((U)z.bits() == U(e)); EXPECT((U)y.bits() == b); \
                   F s(x); U bb = b; (void)bb; s op s; U save = b; b = a; EXPECT((U)s.bits() == U(e)); b = save; }
    A(+=, a | b) A(|=, a | b) A(&=, a & b) A(^=, a ^ b) A(-=, a & ~b) A(=, b)
    E p = (E)a, q = (E)b;
    EXPECT((U)(p | q) == U(a | b)); EXPECT((U)(p & q) == U(a & b)); EXPECT((U)(p ^ q) == U(a ^ b)); EXPECT((U)~p == U(~a)); EXPECT(!p == (a == 0));
    EXPECT(p == (E)a && q == (E)b);
    { E z = p; EXPECT(&(z |= q) == &z); EXPECT((U)z == U(a | b)); }
    { E z = p; EXPECT(&(z &= q) == &z); EXPECT((U)z == U(a & b)); }
    { E z = p; EXPECT(&(z ^= q) == &z); EXPECT((U)z == U(a ^ b)); }
    { E z = p; z ^= z; EXPECT((U)z == 0); z = p; z |= z; EXPECT((U)z == a); z &= z; EXPECT((U)z == a); }
    EXPECT((p == b) == (a == b)); EXPECT((b == p) == (a == b)); EXPECT((p != b) == (a != b)); EXPECT((b != p) == (a != b));
}
static void all(uint64_t a, uint64_t b) {
    one<E8, uint8_t>(a, b); one<E16, int16_t>(a, b); one<E32, uint32_t>(a, b); one<S32, int32_t>(a, b); one<E64, uint64_t>(a, b);
}
void kv_main() {
    for (int w : {8, 16, 32, 64}) {
        auto v = kv::ints(w);
        for (uint64_t a : v) for (uint64_t b : v) all(a, b);
    }
    while (kv::time_left()) for (int i = 0; i < 1000; i++) all(kv::rnd(), kv::rnd());
}
