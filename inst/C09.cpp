// Entry points of path formatting.
#include <amtl/os/am-path.h>
extern "C" {
size_t c09_va(char* d, size_t n, const char* fmt, va_list ap) { return ke::path::FormatVa(d, n, fmt, ap); }
size_t c09_v(char* d, size_t n, const char* fmt, uint64_t a, uint64_t b) { return ke::path::Format(d, n, fmt, a, b); }
}
