// Entry points of the bounded copy functions.
#include <amtl/am-string.h>

extern "C" size_t c05_copy(char* d, size_t n, const char* s) { return ke::SafeStrcpy(d, n, s); }
extern "C" size_t c05_cat(char* d, size_t n, const char* s) { return ke::SafeStrcat(d, n, s); }
extern "C" size_t c05_copyn(char* d, size_t n, const char* s, size_t k) { return ke::SafeStrcpyN(d, n, s, k); }
