#include <stdint.h>
#include <stddef.h>
#include <amtl/am-flags.h>
enum class E8 : uint8_t {}; enum class E16 : int16_t {}; enum class E32 : uint32_t {}; enum class S32 : int32_t {}; enum class E64 : uint64_t {};
enum P32 : uint32_t {};
KE_DEFINE_ENUM_OPERATORS(E8) KE_DEFINE_ENUM_OPERATORS(E16) KE_DEFINE_ENUM_OPERATORS(E32) KE_DEFINE_ENUM_OPERATORS(S32) KE_DEFINE_ENUM_OPERATORS(E64)
KE_DEFINE_ENUM_COMPARATORS(E8, uint8_t) KE_DEFINE_ENUM_COMPARATORS(E16, int16_t) KE_DEFINE_ENUM_COMPARATORS(E32, uint32_t)
KE_DEFINE_ENUM_COMPARATORS(S32, int32_t) KE_DEFINE_ENUM_COMPARATORS(E64, uint64_t)
#define FL(E, U, n) \
extern "C" { \
U c03_f_##n##_plus(U a, U b) { ke::Flags<E> x((E)a), y((E)b); auto r = x + y; return (U)r.bits(); } \
U c03_f_##n##_or(U a, U b) { ke::Flags<E> x((E)a), y((E)b); auto r = x | y; return (U)r.bits(); } \
U c03_f_##n##_and(U a, U b) { ke::Flags<E> x((E)a), y((E)b); auto r = x & y; return (U)r.bits(); } \
U c03_f_##n##_xor(U a, U b) { ke::Flags<E> x((E)a), y((E)b); auto r = x ^ y; return (U)r.bits(); } \
U c03_f_##n##_minus(U a, U b) { ke::Flags<E> x((E)a), y((E)b); auto r = x - y; return (U)r.get(); } \
U c03_f_##n##_plusk(U a, U b) { ke::Flags<E> x((E)a), y((E)b); x + y; return x == ke::Flags<E>((E)a) && y == ke::Flags<E>((E)b); } \
void c03_f_##n##_plusa(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x += *y).bits()); } \
void c03_f_##n##_ora(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x |= *y).bits()); } \
void c03_f_##n##_anda(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x &= *y).bits()); } \
void c03_f_##n##_xora(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x ^= *y).bits()); } \
void c03_f_##n##_minusa(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x -= *y).bits()); } \
void c03_f_##n##_asg(ke::Flags<E>* x, const ke::Flags<E>* y, U* o) { *o = (U)((*x = *y).bits()); } \
bool c03_f_##n##_bool(U a) { ke::Flags<E> x((E)a); return bool(x); } \
bool c03_f_##n##_not(U a) { ke::Flags<E> x((E)a); return !x; } \
bool c03_f_##n##_eq(U a, U b) { ke::Flags<E> x((E)a), y((E)b); return x == y; } \
bool c03_f_##n##_ne(U a, U b) { ke::Flags<E> x((E)a), y((E)b); return x != y; } \
U c03_f_##n##_bits(U a) { ke::Flags<E> x((E)a); return (U)x.bits(); } \
U c03_f_##n##_get(U a) { ke::Flags<E> x((E)a); return (U)x.get(); } \
U c03_f_##n##_copy(U a) { ke::Flags<E> x((E)a); ke::Flags<E> y(x); return (U)y.get(); } \
U c03_f_##n##_def() { ke::Flags<E> x; return (U)x.bits(); } \
}
#define EN(E, U, n) \
extern "C" { \
U c03_e_##n##_or(const U* a, const U* b) { return (U)(*(const E*)a | *(const E*)b); } \
U c03_e_##n##_and(const U* a, const U* b) { return (U)(*(const E*)a & *(const E*)b); } \
U c03_e_##n##_xor(const U* a, const U* b) { return (U)(*(const E*)a ^ *(const E*)b); } \
U c03_e_##n##_inv(const U* a) { return (U)(~*(const E*)a); } \
bool c03_e_##n##_not(const U* a) { return !*(const E*)a; } \
void c03_e_##n##_ora(E* x, const E* y, U* o) { *o = (U)(*x |= *y); } \
void c03_e_##n##_anda(E* x, const E* y, U* o) { *o = (U)(*x &= *y); } \
void c03_e_##n##_xora(E* x, const E* y, U* o) { *o = (U)(*x ^= *y); } \
bool c03_e_##n##_eq1(U a, U b) { return (E)a == b; } \
bool c03_e_##n##_eq2(U a, U b) { return a == (E)b; } \
bool c03_e_##n##_ne1(U a, U b) { return (E)a != b; } \
bool c03_e_##n##_ne2(U a, U b) { return a != (E)b; } \
}
FL(E8, uint8_t, 8) FL(E16, int16_t, 16) FL(E32, uint32_t, 32) FL(S32, int32_t, 32s) FL(E64, uint64_t, 64) FL(P32, uint32_t, 32p)
EN(E8, uint8_t, 8) EN(E16, int16_t, 16) EN(E32, uint32_t, 32) EN(S32, int32_t, 32s) EN(E64, uint64_t, 64)
