// Entry points of the case conversions and the prefix and suffix tests.
#include <amtl/am-string.h>
#include <new>
extern "C" {
void c08_up(std::string* out, const char* s) { new (out) std::string(ke::Uppercase(s)); }
void c08_low(std::string* out, const char* s) { new (out) std::string(ke::Lowercase(s)); }
bool c08_starts_s(const std::string* a, const char* b) { return ke::StartsWith(*a, b); }
bool c08_starts(const char* a, const char* b) { return ke::StartsWith(a, b); }
bool c08_ends(const std::string* a, const std::string* b) { return ke::EndsWith(*a, *b); }
size_t c08_size(const std::string* s) { return s->size(); }
const char* c08_data(const std::string* s) { return s->c_str(); }
void c08_make(std::string* out, const char* s, size_t n) { new (out) std::string(s, n); }
void c08_end(std::string* s) { s->~basic_string(); }
}
