#include <stdint.h>
#include <stddef.h>
#include <amtl/am-bits.h>
extern "C" {
uint64_t c02_log2(size_t n) { return ke::Log2(n); }
uint64_t c02_left32(uint32_t n) { return ke::FindLeftmostBit32(n); }
uint64_t c02_left64(uint64_t n) { return ke::FindLeftmostBit64(n); }
uint64_t c02_right(size_t n) { return ke::FindRightmostBit(n); }
bool c02_pow2(size_t n) { return ke::IsPowerOfTwo(n); }
uint64_t c02_align(size_t n, size_t a) { return ke::Align(n, a); }
bool c02_isaligned_p(void* p, size_t a) { return ke::IsAligned(p, a); }
bool c02_isaligned_s(size_t p, size_t a) { return ke::IsAligned(p, a); }
bool c02_isaligned_w(uint32_t p, size_t a) { return ke::IsAligned(p, a); }
void* c02_base(void* p, size_t a) { return ke::AlignedBase(p, a); }
int* c02_set(int* p, uintptr_t bits) { return ke::SetPointerBits(p, bits); }
#define BITS(n) \
uintptr_t c02_get##n(void* p) { return ke::GetPointerBits<n>(p); } \
int* c02_clear##n(int* p) { return ke::ClearPointerBits<n>(p); }
BITS(1) BITS(2) BITS(3) BITS(4) BITS(12) BITS(30)
}
