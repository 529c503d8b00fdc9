#include "tok.h"
#include <amtl/experimental/am-argparser.h>
namespace ke { namespace args {
template <> struct ValuePolicy<Tok> : public BaseValuePolicy { static bool consumeValue(const char* arg, Tok* out); };
} }
using namespace ke; using namespace ke::args;
typedef Option<Tok> O; typedef RepeatOption<Tok> R; typedef Maybe<Tok> M;
extern "C" {
extern const size_t c28_msize = sizeof(M), c28_osize = sizeof(O), c28_rsize = sizeof(R), c28_esize = sizeof(EnableOption), c28_tsize = sizeof(ToggleOption), c28_ssize = sizeof(StopOption), c28_psize = sizeof(Parser), c28_mbsize = sizeof(Maybe<bool>);
bool c28_bool(const char* a, bool* o) { return ValuePolicy<bool>::consumeValue(a, o); }
bool c28_int(const char* a, int* o) { return ValuePolicy<int>::consumeValue(a, o); }
bool c28_str(const char* a, std::string* o) { return ValuePolicy<std::string>::consumeValue(a, o); }
bool c28_omit_bool() { return ValuePolicy<bool>::canOmitValue(); }
bool c28_omit_int() { return ValuePolicy<int>::canOmitValue(); }
bool c28_omit_str() { return ValuePolicy<std::string>::canOmitValue(); }
void c28_none(void* p) { new (p) M(); }
void c28_some(void* p, const Tok* t) { new (p) M(Some(*t)); }
bool c28_mvalid(const M* m) { return m->isValid(); }
const Tok* c28_mget(const M* m) { return &m->get(); }
void c28_opt(void* p, Parser* q, const char* l, const M* d, const char* h) { if (q) new (p) O(*q, nullptr, l, *d, h); else new (p) O(nullptr, l, *d, h); }
void c28_pos(void* p, Parser* q, const char* n, const char* h) { if (q) new (p) O(*q, n, h); else new (p) O(n, h); }
void c28_put(O* o, const Tok* t) { o->value_ = Some(*t); }
void c28_rep(void* p, Parser* q, const char* l, const char* h) { if (q) new (p) R(*q, nullptr, l, h); else new (p) R(nullptr, l, h); }
std::vector<Tok>* c28_vals(R* r) { return &r->values(); }
const std::vector<Tok>* c28_cvals(const R* r) { return &r->values(); }
void c28_enable(void* p, Parser* q, const char* l, bool d, const char* h) { if (q) new (p) EnableOption(*q, nullptr, l, d, h); else new (p) EnableOption(nullptr, l, d, h); }
void c28_bnone(void* p) { new (p) Maybe<bool>(); }
void c28_bsome(void* p, bool b) { new (p) Maybe<bool>(Some(b)); }
void c28_toggle(void* p, Parser* q, const char* l, const Maybe<bool>* d, const char* h) { if (q) new (p) ToggleOption(*q, nullptr, l, *d, h); else new (p) ToggleOption(nullptr, l, *d, h); }
void c28_stop(void* p, Parser* q, const char* l, const Maybe<bool>* d, const char* h) { if (q) new (p) StopOption(*q, nullptr, l, *d, h); else new (p) StopOption(nullptr, l, *d, h); }
bool c28_evalue(const EnableOption* o) { return o->value(); }
bool c28_tvalue(const ToggleOption* o) { return o->value(); }
bool c28_consume(IOption* o, const char* a) { return o->consumeValue(a); }
void c28_reset(IOption* o) { o->reset(); }
bool c28_repeats(const IOption* o) { return o->willRepeat(); }
bool c28_must(const IOption* o) { return o->mustOmitValue(); }
bool c28_can(const IOption* o) { return o->canOmitValue(); }
bool c28_halt(const IOption* o) { return o->haltOnValue(); }
bool c28_no(const IOption* o) { return o->canPrefixWithNo(); }
bool c28_has(const O* o) { return o->hasValue(); }
const Tok* c28_value(const O* o) { return &o->value(); }
void c28_maybe(void* out, const O* o) { new (out) M(o->maybeValue()); }
}
extern "C" {
std::vector<IOption*>* c28_options(Parser* p) { return &p->options_; }
std::vector<IOption*>* c28_positionals(Parser* p) { return &p->positionals_; }
void* c28_help(Parser* p) { return &p->help_option_; }
std::string* c28_error(Parser* p) { return &p->error_; }
const std::vector<std::string>* c28_extra(Parser* p) { return &p->extra_args(); }
std::vector<std::string>* c28_pass(Parser* p) { return &p->passthrough_args(); }
bool* c28_haspass(Parser* p) { return &p->has_passthrough_args_; }
void c28_presets(Parser* p) { p->reset(); }
}
