// Entry points of the hash helpers.
#include <amtl/am-hashtable.h>
#include <new>
typedef ke::CharacterStreamHasher H;
extern "C" {
extern const size_t c10_size = sizeof(H);
uint32_t c10_seq(const char* s, size_t n) { return ke::HashCharSequence(s, n); }
uint32_t c10_fast(const char* s, size_t n) { return ke::FastHashCharSequence(s, n); }
void c10_new(H* h) { new (h) H(); }
void c10_add1(H* h, char c) { h->add(c); }
void c10_add(H* h, const char* s, size_t n) { h->add(s, n); }
uint32_t c10_result(H* h) { return h->result(); }
uint32_t c10_i32(int32_t v) { return ke::HashInt32(v); }
uint32_t c10_i64(int64_t v) { return ke::HashInt64(v); }
uint32_t c10_int4(uintptr_t v) { return ke::HashInteger<4>(v); }
uint32_t c10_int8(uintptr_t v) { return ke::HashInteger<8>(v); }
uint32_t c10_ptr(const void* p) { return ke::HashPointer(p); }
uint32_t c10_combine(uint32_t a, uint32_t b) { return ke::HashCombine(a, b); }
}
