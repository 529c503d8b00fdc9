// FLAGS: -fno-access-control
#include "kv.h"
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
static std::string rs() {
    static const char* w[] = {"", "0", "-1", "+7", " 12", "12 ", "0x10", "010", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-99999999999999999999", "true", "false", "TRUE", "False", "tru", "truee", "falsey", "t", "1", "abc", "12a", "--", "1e3", "-", "+", " "};
    if (kv::rnd(2)) return w[kv::rnd(sizeof(w) / sizeof(*w))];
    std::string s; size_t n = kv::rnd(14); for (size_t i = 0; i < n; i++) s += "0123456789-+ tTrRuUeExX\t\xff"[kv::rnd(25)];
    return s;
}
static bool oracle_int(const std::string& s, int* out) {
    size_t i = 0; while (i < s.size() && strchr(" \t\n\v\f\r", s[i])) i++;
    bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) return false;
    __int128 v = 0;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; if (v < (__int128(1) << 70)) v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (v < INT_MIN || v > INT_MAX) return false;
    *out = int(v); return true;
}
static bool oracle_bool(std::string s, bool* out) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32;
    if (s != "true" && s != "false") return false;
    *out = s == "true"; return true;
}
static char* cp(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void policies(const std::string& s) {
    char* a = cp(s); kv::begin("value \"%s\"", kv::esc(s).c_str());
    for (int e : {0, ERANGE, EINVAL}) {
        int i = 77, j = 77; errno = e; bool r = ValuePolicy<int>::consumeValue(a, &i), q = oracle_int(s, &j);
        EXPECT(r == q, "int: %d instead of %d (errno %d before)", r, q, e); if (r) EXPECT(i == j, "int is %d", i);
    }
    bool b = kv::rnd(2), c = b; bool r = ValuePolicy<bool>::consumeValue(a, &b), q = oracle_bool(s, &c);
    EXPECT(r == q, "bool: %d instead of %d", r, q); if (r) EXPECT(b == c, "bool is %d", b);
    std::string t = "old"; r = ValuePolicy<std::string>::consumeValue(a, &t); EXPECT(r == !s.empty()); if (r) EXPECT(t == s);
    b = false; EXPECT(ValuePolicy<bool>::consumeValue(nullptr, &b) && b);
    free(a);
}
template <class V> static bool oracle(const std::string& s, V* v);
template <> bool oracle<int>(const std::string& s, int* v) { return oracle_int(s, v); }
template <> bool oracle<bool>(const std::string& s, bool* v) { return oracle_bool(s, v); }
template <> bool oracle<std::string>(const std::string& s, std::string* v) { if (s.empty()) return false; *v = s; return true; }
template <class V> static void history(const V& dv) {
    Parser p; bool hasd = kv::rnd(2); Maybe<V> d; if (hasd) d = Some(V(dv));
    bool pos = !hasd && kv::rnd(2);
    Option<V>* o = pos ? new Option<V>(p, "name", "h") : new Option<V>(p, "x", "xx", d, "h");
    RepeatOption<V>* r = new RepeatOption<V>(p, "y", nullptr, "h");
    std::string log; bool has = false; V v{}; std::vector<V> all;
    for (int k = kv::rnd(8); k >= 0; k--) {
        kv::begin("option with%s default, history:%s", hasd ? "" : "out", log.c_str());
        EXPECT(o->hasValue() == (has || hasd), "hasValue");
        if (has || hasd) EXPECT(o->value() == (has ? v : dv), "value");
        Maybe<V> m = o->maybeValue(); EXPECT(m.isValid() == (has || hasd)); if (m.isValid()) EXPECT(m.get() == (has ? v : dv), "maybeValue");
        EXPECT(o->willRepeat() == !has, "willRepeat"); EXPECT(r->values() == all, "values");
        if (!kv::rnd(5)) { if (kv::rnd(2)) p.reset(); else { ((IOption*)o)->reset(); ((IOption*)r)->reset(); } has = false; all.clear(); log += " reset"; continue; }
        std::string s = rs(); char* a = cp(s); V w{}; bool ok = oracle<V>(s, &w); log += " \"" + kv::esc(s) + "\"";
        EXPECT(((IOption*)o)->consumeValue(a) == ok); EXPECT(((IOption*)r)->consumeValue(a) == ok);
        if (ok) { has = true; v = w; all.push_back(w); }
        free(a);
    }
    kv::begin("option with%s default, history:%s", hasd ? "" : "out", log.c_str());
    EXPECT(o->hasValue() == (has || hasd)); if (has || hasd) EXPECT(o->value() == (has ? v : dv)); EXPECT(r->values() == all);
    delete o; delete r;
}
static void switches() {
    for (int d = 0; d < 3; d++) for (int stop = 0; stop < 2; stop++) {
        kv::begin("%s option, default %d", stop ? "stop" : "toggle", d - 1); Parser p; Maybe<bool> m; if (d) m = Some(d == 2); bool def = d == 2;
        StopOption so(p, "s", "stop", m, "h"); ToggleOption to(p, "t", "tog", m, "h"); ToggleOption* t = stop ? &so : &to; IOption* o = t;
        EXPECT(o->haltOnValue() == bool(stop) && o->mustOmitValue());
        for (int k = 0; k < 3; k++) {
            EXPECT(t->value() == def && o->willRepeat()); EXPECT(!o->consumeValue("true") && t->value() == def); EXPECT(!o->consumeValue("") && t->value() == def);
            EXPECT(o->consumeValue(nullptr) && t->value() == !def && !o->willRepeat()); EXPECT(!o->consumeValue("x") && t->value() == !def); p.reset();
        }
    }
    for (int d = 0; d < 2; d++) {
        kv::begin("enable option, default %d", d); Parser p; EnableOption e(p, "e", "en", d, "h"); IOption* o = &e;
        for (const char* w : {"true", "false", "true"}) { EXPECT(e.value() == bool(d) && o->willRepeat()); EXPECT(o->consumeValue(w)); EXPECT(e.value() == !strcmp(w, "true") && !o->willRepeat()); p.reset(); }
    }
}
struct Set {
    Parser p; StringOption s; IntOption i; Option<bool> b; EnableOption e; ToggleOption t; StopOption st; RepeatOption<int> r; StringOption q;
    Set(int f) : p(f & 16 ? "help" : nullptr), s(p, "s", "str", Nothing(), ""), i(p, "i", "int", Some(5), ""), b(p, "b", "bool", Nothing(), ""), e(p, "e", "en", false, ""), t(p, "t", "tog", Nothing(), ""), st(p, nullptr, "stop", Nothing(), ""), r(p, "r", "rep", ""), q(p, "pos", "") {
        if (f & 1) p.enable_inline_values(); if (f & 2) p.allow_slashes(); if (f & 4) p.collect_extra_args(); if (f & 8) p.allow_passthrough_args();
    }
    std::string show(bool ok) {
        std::string x = ok ? "ok " : "failed "; char n[40]; auto num = [&](long v) { snprintf(n, sizeof n, "%ld ", v); x += n; };
        num(s.hasValue()); if (s.hasValue()) x += s.value() + " "; num(i.value()); num(b.hasValue() ? b.value() : 2); num(e.value()); num(t.value()); num(st.value());
        for (int v : r.values()) num(v); num(q.hasValue()); if (q.hasValue()) x += q.value() + " ";
        for (auto& a : p.extra_args()) x += "extra " + a + " "; for (auto& a : p.passthrough_args()) x += "pass " + a + " ";
        char* t = nullptr; size_t tn = 0; FILE* fp = open_memstream(&t, &tn); char nm[] = "prog"; char* av[] = {nm, nullptr}; p.usage(fp, 1, av); fclose(fp);
        x += std::string(t, tn); free(t);
        return x;
    }
};
static std::vector<std::string> line() {
    static const char* w[] = {"-s", "v", "-s=v", "--str=w", "-i", "7", "-i=x", "-b", "true", "-b=false", "-e", "--no-en", "-t", "--stop", "-r", "-r=3", "4", "--", "extra", "-h", "--help", "-zz", "/i=3", "-i8", "p"};
    std::vector<std::string> l; for (int k = kv::rnd(8); k > 0; k--) l.push_back(w[kv::rnd(sizeof(w) / sizeof(*w))]); return l;
}
static void resets() {
    int f = kv::rnd(32); Set a(f), c(f); std::string log;
    for (int k = 0; k < 3; k++) { auto l = line(); a.p.parse(l); for (auto& x : l) log += " " + x; log += ";"; if (k == 2 || kv::rnd(2)) a.p.reset(); }
    auto l = line(); std::string m; for (auto& x : l) m += " " + x;
    kv::begin("flags %d, parses%s then reset and%s", f, log.c_str(), m.c_str());
    std::string s1 = a.show(a.p.parse(l)), s2 = c.show(c.p.parse(l)); EXPECT(s1 == s2, "gives '%s', a fresh parser '%s'", kv::esc(s1).c_str(), kv::esc(s2).c_str());
}
void kv_main() {
    switches();
    for (uint64_t h : kv::g_hints) { policies(std::to_string((long)h)); policies(std::to_string((int)h)); }
    while (kv::time_left()) { policies(rs()); history<int>((int)kv::rnd()); history<bool>(kv::rnd(2)); history<std::string>("dflt"); resets(); }
}
