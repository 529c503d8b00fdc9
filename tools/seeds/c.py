AP = 'amtl/experimental/am-argparser.h'
seed('s29-int-empty', 'C28', AP, ("        if (endptr == arg || *endptr != '\\0')", "        if (*endptr != '\\0')"),
     'an empty argument for an integer option', 'an empty argument is taken as the number 0',
     r'''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
int main() {
    for (const char* v : {"7", "", "x", "2147483648", "-2147483648", " 9", "9 "}) {
        Parser p; IntOption o(p, "i", "int", Some(5), "h");
        bool ok = p.parsev("-i", v, nullptr);
        bool want = !strcmp(v, "7") || !strcmp(v, "-2147483648") || !strcmp(v, " 9");
        if (ok != want || o.value() != (want ? atoi(v) : 5)) return 1;
    }
    return 0;
}
''')
seed('s30-bool-prefix', 'C28', AP, ('        if (StrCaseCmp(arg, "false") == 0) {', '        if (strncasecmp(arg, "false", strlen(arg)) == 0) {'),
     'a boolean option followed by an empty argument or a beginning of "false"', 'beginnings of "false" are taken as false',
     r'''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
int main() {
    for (const char* v : {"true", "FALSE", "False", "fal", "f", "", "falsey", "no"}) {
        Parser p; Option<bool> o(p, "b", "bool", Nothing(), "h"); StringOption s(p, "rest", "h");
        std::string a = std::string("--bool=") + v;
        bool want = !strcasecmp(v, "true") || !strcasecmp(v, "false");
        bool ok = p.parsev(a.c_str(), "x", nullptr);
        if (ok != want || o.hasValue() != want) return 1;
        if (want && o.value() != !strcasecmp(v, "true")) return 2;
    }
    return 0;
}
''')
