#include <stdint.h>
#include <stddef.h>
#include <amtl/am-bits.h>
#include <amtl/am-arithmetic.h>
extern "C" {
bool c01_tryadd32(uint32_t a, uint32_t b, uint32_t* o) { return ke::TryUint32Add(a, b, o); }
bool c01_tryadd64(uint64_t a, uint64_t b, uint64_t* o) { return ke::TryUint64Add(a, b, o); }
bool c01_trymul64(uint64_t a, uint64_t b, uint64_t* o) { return ke::TryUint64Multiply(a, b, o); }
bool c01_add32(uint32_t a, uint32_t b) { return ke::IsUint32AddSafe(a, b); }
bool c01_add64(uint64_t a, uint64_t b) { return ke::IsUint64AddSafe(a, b); }
bool c01_addptr(size_t a, size_t b) { return ke::IsUintPtrAddSafe(a, b); }
bool c01_mul32(uint32_t a, uint32_t b) { return ke::IsUint32MultiplySafe(a, b); }
bool c01_mul64(uint64_t a, uint64_t b) { return ke::IsUint64MultiplySafe(a, b); }
bool c01_mulptr(size_t a, size_t b) { return ke::IsUintPtrMultiplySafe(a, b); }
bool c01_tadd32(uint32_t a, uint32_t b) { return ke::IsUintAddSafe<uint32_t>(a, b); }
bool c01_tadd64(uint64_t a, uint64_t b) { return ke::IsUintAddSafe<uint64_t>(a, b); }
bool c01_tmul32(uint32_t a, uint32_t b) { return ke::IsUintMultiplySafe<uint32_t>(a, b); }
bool c01_tmul64(uint64_t a, uint64_t b) { return ke::IsUintMultiplySafe<uint64_t>(a, b); }
}
