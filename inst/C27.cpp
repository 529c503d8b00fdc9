#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
extern "C" {
extern const size_t c27_psize = sizeof(Parser);
std::vector<IOption*>* c27_options(Parser* p) { return &p->options_; }
std::vector<IOption*>* c27_positionals(Parser* p) { return &p->positionals_; }
void* c27_help(Parser* p) { return &p->help_option_; }
std::string* c27_error(Parser* p) { return &p->error_; }
const std::vector<std::string>* c27_extra(Parser* p) { return &p->extra_args(); }
std::vector<std::string>* c27_pass(Parser* p) { return &p->passthrough_args(); }
bool* c27_haspass(Parser* p) { return &p->has_passthrough_args_; }
bool* c27_inline(Parser* p) { return &p->inline_values_; }
bool* c27_slashes(Parser* p) { return &p->allow_slashes_; }
bool* c27_collect(Parser* p) { return &p->collect_extra_args_; }
bool* c27_passargs(Parser* p) { return &p->allow_passthrough_args_; }
bool c27_parse_impl(Parser* p, const std::vector<const char*>* a) { return p->parse_impl(*a); }
bool c27_parse_ptrs(Parser* p, const std::vector<const char*>* a) { return p->parse(*a); }
bool c27_parse_main(Parser* p, int n, char** v) { return p->parse(n, v); }
bool c27_parse_strs(Parser* p, const std::vector<std::string>* a) { return p->parse(*a); }
IOption* c27_short(Parser* p, const char* s, size_t n) { return p->find_short(s, n); }
IOption* c27_long(Parser* p, const char* s, size_t n) { return p->find_long(s, n); }
IOption* c27_inl(Parser* p, char c) { return p->find_inline_short(c); }
void c27_add(Parser* p, IOption* o) { p->add(o); }
ToggleOption* c27_keep(Parser* p) { return new StopOption(*p, nullptr, "x", Nothing(), ""); }
}
