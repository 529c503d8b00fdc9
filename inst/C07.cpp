// Entry points of Split and Join.
#include <amtl/am-string.h>
#include <new>
using V = std::vector<std::string>;
extern "C" {
void c07_split(V* out, const char* s, const char* sep) { new (out) V(ke::Split(s, sep)); }
void c07_splits(V* out, const std::string* s, const char* sep) { new (out) V(ke::Split(*s, sep)); }
void c07_join(std::string* out, const V* v, const char* sep) { new (out) std::string(ke::Join(*v, sep)); }
size_t c07_n(const V* v) { return v->size(); }
const std::string* c07_at(const V* v, size_t i) { return &(*v)[i]; }
size_t c07_size(const std::string* s) { return s->size(); }
const char* c07_data(const std::string* s) { return s->c_str(); }
void c07_end(std::string* s) { s->~basic_string(); }
void c07_vend(V* v) { v->~V(); }
}
