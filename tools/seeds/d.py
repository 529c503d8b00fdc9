seed('s31-short-prefix', 'C27', AP, ("""        if (strlen(option->short_form()) == len &&
            strncmp(option->short_form(), short_form, len) == 0) {""", """        if (strncmp(option->short_form(), short_form, len) == 0) {"""),
     'an option whose short form begins with the one written, registered before it', 'the beginning of a longer short form is taken for it',
     r'''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
int main() {
    Parser p; ToggleOption vv(p, "vv", nullptr, Some(false), "very verbose"); ToggleOption v(p, "v", nullptr, Some(false), "verbose");
    if (!p.parsev("-v", nullptr) || vv.value() || !v.value()) return 1;
    p.reset();
    if (!p.parsev("-vv", "-v", nullptr) || !vv.value() || !v.value()) return 2;
    p.reset();
    return p.parsev("-", nullptr) ? 3 : 0;
}
''')
seed('s32-colon-first', 'C27', AP, ("""            if (!sep && inline_values_)
                sep = strchr(arg, ':');""", """            if (inline_values_ && strchr(arg, ':'))
                sep = strchr(arg, ':');"""),
     'inline values enabled and a value given with = that contains a colon', 'the argument is split at the colon in the value',
     r'''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
int main() {
    Parser p; p.enable_inline_values(); StringOption o(p, "o", "out", Nothing(), "h");
    if (!p.parsev("--out=c:file", nullptr) || o.value() != "c:file") return 1;
    p.reset();
    return p.parsev("--out:file", nullptr) && o.value() == "file" ? 0 : 2;
}
''')
seed('s33-repeat-equals', 'C27', AP, ("            if (!option->willRepeat())\n                return option_already_specified(option);", "            if (!sep && !option->willRepeat())\n                return option_already_specified(option);"),
     'a single-use option written a second time, as --key=value', 'the second value replaces the first without an error',
     r'''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
int main() {
    Parser p; StringOption o(p, "o", "out", Nothing(), "h");
    if (p.parsev("-o", "a", "-o", "b", nullptr)) return 1;
    p.reset();
    if (!p.parsev("--out=a", nullptr) || o.value() != "a") return 2;
    p.reset();
    return p.parsev("--out=a", "--out=b", nullptr) ? 3 : 0;
}
''')
