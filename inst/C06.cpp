// Entry points of the formatting helpers.
#include <amtl/am-string.h>
#include <new>

extern "C" {
size_t c06_vs(char* d, size_t n, const char* fmt, va_list ap) { return ke::SafeVsprintf(d, n, fmt, ap); }
size_t c06_s(char* d, size_t n, const char* fmt, uint64_t a, uint64_t b) { return ke::SafeSprintf(d, n, fmt, a, b); }
char* c06_va(const char* fmt, va_list ap) { return ke::SprintfArgs(fmt, ap).release(); }
char* c06_v(const char* fmt, uint64_t a, uint64_t b) { return ke::Sprintf(fmt, a, b).release(); }
void c06_del(char* p) { std::unique_ptr<char[]> q(p); }
void c06_strva(std::string* out, const char* fmt, va_list ap) { new (out) std::string(ke::StringPrintfVa(fmt, ap)); }
void c06_str(std::string* out, const char* fmt, uint64_t a, uint64_t b) { new (out) std::string(ke::StringPrintf(fmt, a, b)); }
size_t c06_size(const std::string* s) { return s->size(); }
const char* c06_data(const std::string* s) { return s->c_str(); }
void c06_end(std::string* s) { s->~basic_string(); }
}
