// FLAGS: -fno-access-control
#include "kv.h"
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
std::vector<IOption*>* Parser::sStaticOptions;
typedef std::string S;
struct Call { int opt; bool null; S v; bool ok; bool operator==(const Call& o) const { return opt == o.opt && null == o.null && v == o.v && ok == o.ok; } };
static std::vector<Call> g_calls;
static char* cp(const S& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
struct Spec { S s, l; bool hs, hl, must, can, halts, no, multi; int picky; };
static bool accepts(const Spec& s, bool null, const S& v) { return null ? (s.can || s.must) : !(s.picky == 1 ? !v.empty() && v[0] == 'v' : s.picky == 2 ? v.size() > 2 : false); }
struct Rec : IOption {
    const Spec& sp; int id; bool given = false;
    Rec(Parser& p, const Spec& s, int i, const char* a, const char* b, const char* n) : IOption(a, b, n, "h"), sp(s), id(i) { p.add(this); }
    bool willRepeat() const override { return sp.multi || !given; }
    bool canOmitValue() const override { return sp.can; }
    bool mustOmitValue() const override { return sp.must; }
    bool haltOnValue() const override { return sp.halts; }
    bool canPrefixWithNo() const override { return sp.no; }
    bool consumeValue(const char* v) override {
        bool ok = accepts(sp, !v, v ? v : ""); g_calls.push_back({id, !v, v ? v : "", ok}); if (ok) given = true; return ok;
    }
    void reset() override { given = false; }
};
static const char* kForm[] = {"a", "b", "ab", "o", "oo", "no", "no-b", "v", "h", "help", "aa", "b-", "n", "opt", "no-no"};
static S form() { return kForm[kv::rnd(sizeof(kForm) / sizeof(*kForm))]; }
struct Ref {
    std::vector<Spec> os, ps; bool inl, sl, col, pas, help; int ids = 0;
    std::vector<Call> calls; std::vector<S> extra, pass; bool helped = false;
    // what the documentation says; 0 = success, 1 = help, 2 = error
    int parse(const std::vector<S>& a) {
        std::vector<bool> given(os.size() + 1);
        size_t pos = 0; bool through = false;
        for (size_t i = 0; i < a.size(); i++) {
            const S& s = a[i];
            if (through) { pass.push_back(s); continue; }
            if (pas && s == "--") { through = true; continue; }
            bool isopt = (!s.empty() && s[0] == '-') || (sl && !s.empty() && s[0] == '/');
            if (!isopt) {
                if (pos == ps.size()) { if (!col) return 2; extra.push_back(s); continue; }
                const Spec& p = ps[pos]; bool ok = accepts(p, false, s);
                calls.push_back({1000 + int(pos), false, s, ok}); if (!ok) return 2;
                pos++; if (p.halts) return fin();
                continue;
            }
            size_t sep = s.find('='); if (sep == S::npos && inl) sep = s.find(':');
            if (inl && sep != S::npos && sep + 1 == s.size()) sep = S::npos;
            S key = s.substr(0, sep); bool has = sep != S::npos; S val = has ? s.substr(sep + 1) : "";
            int o = -1; bool neg = false;
            if (s.compare(0, 2, "--") == 0) o = find(true, key.substr(2));
            else {
                o = find(false, key.substr(1));
                if (o < 0 && inl && s.size() > 1) {
                    o = find(false, S(1, s[1]));
                    if (o >= 0 && key.size() > 2) { has = true; val = s.substr(2); }
                }
            }
            if (o < 0 && s.compare(0, 5, "--no-") == 0) {
                o = find(true, key.size() < 5 ? "" : key.substr(5));
                if (o >= 0 && !no(o)) o = -1;
                neg = o >= 0;
            }
            if (o < 0 || (given[o] && !multi(o))) return 2;
            if (has && must(o)) return 2;
            bool implied = no(o); bool null = false, took = false;
            if (!has && implied) val = neg ? "false" : "true";
            else if (!has) {
                null = true;
                if (i + 1 == a.size()) { if (!can(o)) return 2; }
                else if (!must(o)) { null = false; took = true; val = a[i + 1]; }
            }
            bool ok = call(o, null, val);
            if (!ok && took && can(o)) { took = false; ok = call(o, true, ""); }
            if (!ok) return 2;
            if (took) i++;
            given[o] = true;
            if (H(o) || os[o].halts) return fin();
        }
        return pos < ps.size() ? 2 : fin();
    }
    int fin() { return helped ? 1 : 0; }
    bool H(int o) { return o == int(os.size()); }
    bool no(int o) { return H(o) ? false : os[o].no; }
    bool must(int o) { return H(o) ? true : os[o].must; }
    bool can(int o) { return H(o) ? true : os[o].can; }
    bool multi(int o) { return H(o) ? false : os[o].multi; }
    bool call(int o, bool null, const S& v) {
        if (H(o)) { if (null) helped = true; return null; }
        bool ok = accepts(os[o], null, null ? "" : v); calls.push_back({o, null, null ? "" : v, ok}); return ok;
    }
    int find(bool l, const S& k) {
        // the help option was added first
        if (help && k == (l ? "help" : "h")) return int(os.size());
        for (size_t i = 0; i < os.size(); i++) if (l ? os[i].hl && os[i].l == k : os[i].hs && os[i].s == k) return int(i);
        return -1;
    }
};
static S show(const std::vector<S>& v) { S r; for (auto& s : v) r += " \"" + kv::esc(s) + "\""; return r; }
static void once() {
    Ref r; r.inl = kv::rnd(2); r.sl = kv::rnd(2); r.col = kv::rnd(2); r.pas = kv::rnd(2); r.help = !kv::rnd(3);
    for (size_t n = kv::rnd(5), i = 0; i < n; i++) {
        Spec s{}; s.hs = kv::rnd(3); s.hl = !s.hs || kv::rnd(2); s.s = form(); s.l = form();
        s.no = !kv::rnd(3); s.must = !kv::rnd(3); s.can = s.must || !kv::rnd(3); s.halts = !kv::rnd(8); s.multi = !kv::rnd(3); s.picky = kv::rnd(3);
        if (s.no) s.picky = 0;
        r.os.push_back(s);
    }
    for (size_t n = kv::rnd(3), i = 0; i < n; i++) { Spec s{}; s.halts = !kv::rnd(8); s.picky = kv::rnd(3); s.can = kv::rnd(2); r.ps.push_back(s); }
    std::vector<S> a;
    for (size_t n = kv::rnd(6), i = 0; i < n; i++) {
        static const char* pre[] = {"-", "--", "/", "--no-", "", "-", "--"}; static const char* sp[] = {"", "", "=", ":"}; static const char* vals[] = {"", "v", "w", "12", "value", "-a", "="};
        static const char* odd[] = {"--", "-", "", "/", "--no-", "---", "-=", "--=", "-:", "--no-=", "--no", "-a=", "-a:", "--help", "-h", "/h", "a=b"};
        if (!kv::rnd(4)) { a.push_back(odd[kv::rnd(sizeof(odd) / sizeof(*odd))]); continue; }
        S nm = form(); if (!r.os.empty() && kv::rnd(4)) { auto& o = r.os[kv::rnd(r.os.size())]; nm = kv::rnd(2) && o.hl ? o.l : o.s; }
        a.push_back(S(pre[kv::rnd(7)]) + nm + sp[kv::rnd(4)] + vals[kv::rnd(7)]);
    }
    S d; for (size_t i = 0; i < r.os.size(); i++) { auto& o = r.os[i]; d += "{" + (o.hs ? "-" + o.s : S()) + (o.hl ? " --" + o.l : S()) + (o.must ? " must-omit" : o.can ? " may-omit" : "") + (o.no ? " no" : "") + (o.multi ? " repeat" : "") + (o.halts ? " stop" : "") + "} "; }
    kv::begin("options %s%s%s%s%s%s%zu positionals, arguments%s", d.c_str(), r.inl ? "inline " : "", r.sl ? "slashes " : "", r.col ? "extra " : "", r.pas ? "passthrough " : "", r.help ? "help " : "", r.ps.size(), show(a).c_str());
    std::vector<IOption*> objs; std::vector<char*> mem; auto str = [&](const S& s) { mem.push_back(cp(s)); return mem.back(); };
    {
        Parser* p = r.help ? new Parser("about") : new Parser();
        if (r.inl) p->enable_inline_values();
        if (r.sl) p->allow_slashes();
        if (r.col) p->collect_extra_args();
        if (r.pas) p->allow_passthrough_args();
        for (size_t i = 0; i < r.os.size(); i++) { auto& o = r.os[i]; objs.push_back(new Rec(*p, o, int(i), o.hs ? str(o.s) : nullptr, o.hl ? str(o.l) : nullptr, nullptr)); }
        for (size_t i = 0; i < r.ps.size(); i++) objs.push_back(new Rec(*p, r.ps[i], 1000 + int(i), nullptr, nullptr, "pos"));
        g_calls.clear();
        std::vector<char*> av; av.push_back(str("prog")); for (auto& s : a) av.push_back(str(s));
        int how = kv::rnd(a.size() <= 3 ? 4 : 3); bool ok;
        if (how == 0) ok = p->parse(int(av.size()), av.data());
        else if (how == 1) { std::vector<const char*> v(av.begin() + 1, av.end()); ok = p->parse(v); }
        else if (how == 2) ok = p->parse(a);
        else { const char* x[4] = {}; for (size_t i = 0; i < a.size(); i++) x[i] = av[i + 1]; ok = p->parsev(x[0], x[1], x[2], x[3]); }
        int want = r.parse(a);
        EXPECT(ok == (want == 0), "parse is %d instead of %d", ok, want == 0);
        S cs; for (auto& c : r.calls) cs += " " + std::to_string(c.opt) + (c.null ? "<-none" : "<-\"" + kv::esc(c.v) + "\""); S gs; for (auto& c : g_calls) gs += " " + std::to_string(c.opt) + (c.null ? "<-none" : "<-\"" + kv::esc(c.v) + "\"");
        EXPECT(g_calls == r.calls, "values given:%s instead of:%s", gs.c_str(), cs.c_str());
        EXPECT(p->extra_args() == r.extra, "extra arguments:%s instead of:%s", show(p->extra_args()).c_str(), show(r.extra).c_str());
        EXPECT(p->passthrough_args() == r.pass, "passthrough arguments:%s instead of:%s", show(p->passthrough_args()).c_str(), show(r.pass).c_str());
        if (want == 2) EXPECT(!p->error_.empty(), "no error recorded");
        delete p;
    }
    for (auto* o : objs) delete static_cast<Rec*>(o);
    for (auto* m : mem) free(m);
}
void kv_main() { while (kv::time_left()) once(); }
