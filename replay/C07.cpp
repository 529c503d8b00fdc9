#include "kv.h"
#include <amtl/am-string.h>
using namespace ke;
typedef std::vector<std::string> V;
static V oracle(const std::string& s, const std::string& sep) {
    V r; if (s.empty()) return r;
    size_t p = 0;
    for (;;) { size_t q = std::string::npos;
        for (size_t i = p; i + sep.size() <= s.size(); i++) if (!memcmp(s.data() + i, sep.data(), sep.size())) { q = i; break; }
        if (q == std::string::npos) { r.push_back(s.substr(p)); return r; }
        r.push_back(s.substr(p, q - p)); p = q + sep.size(); }
}
static std::string show(const V& v) { std::string s = "["; for (auto& x : v) s += "'" + std::string(kv::esc(x).c_str()) + "' "; return s + "]"; }
static std::string rs(size_t n, int k) { std::string s; for (size_t i = 0; i < n; i++) { char c = "ab,c"[kv::rnd(k)]; s += c; } return s; }
static void one(const std::string& s, const std::string& sep) {
    kv::begin("string %s separator %s", kv::esc(s).c_str(), kv::esc(sep).c_str());
    std::unique_ptr<char[]> p(new char[s.size() + 1]), q(new char[sep.size() + 1]);
    memcpy(p.get(), s.c_str(), s.size() + 1); memcpy(q.get(), sep.c_str(), sep.size() + 1);
    V want = oracle(s, sep), got = Split(p.get(), q.get()), got2 = Split(s, q.get());
    EXPECT(got == want, "Split(chars): %s", show(got).c_str());
    EXPECT(got2 == want, "Split(string): %s", show(got2).c_str());
    EXPECT(Join(got, q.get()) == s, "Join(Split(s))");
    EXPECT(!memcmp(p.get(), s.c_str(), s.size() + 1) && !memcmp(q.get(), sep.c_str(), sep.size() + 1));
}
static void join(const V& v, const std::string& sep) {
    kv::begin("pieces %s separator %s", show(v).c_str(), kv::esc(sep).c_str());
    std::string want; for (size_t i = 0; i < v.size(); i++) { if (i) want += sep; want += v[i]; }
    std::string got = Join(v, sep.c_str());
    EXPECT(got == want, "Join: '%s'", kv::esc(got).c_str());
    EXPECT(got.size() == want.size(), "length");
}
void kv_main() {
    for (size_t n = 0; n < 7; n++) for (size_t m = 1; m < 4; m++) {
        size_t a = 1, b = 1; for (size_t i = 0; i < n; i++) a *= 2; for (size_t i = 0; i < m; i++) b *= 2;
        for (size_t x = 0; x < a; x++) for (size_t y = 0; y < b; y++) { std::string s, t; for (size_t i = 0; i < n; i++) s += (x >> i & 1) ? 'b' : 'a'; for (size_t i = 0; i < m; i++) t += (y >> i & 1) ? 'b' : 'a'; one(s, t); }
    }
    for (int b = 1; b < 256; b++) { one(std::string("x") + (char)b + "y" + (char)b, std::string(1, (char)b)); join(V{"", std::string(2, (char)b), ""}, std::string(1, (char)b)); }
    while (kv::time_left()) {
        int k = 1 + kv::rnd(4);
        one(rs(kv::rnd(kv::rnd(4) ? 12 : 900), k), rs(1 + kv::rnd(kv::rnd(3) ? 3 : 30), k));
        V v(kv::rnd(kv::rnd(4) ? 5 : 60)); for (auto& x : v) { x = rs(kv::rnd(kv::rnd(4) ? 4 : 80), 4); if (!kv::rnd(5) && !x.empty()) x[kv::rnd(x.size())] = '\0'; }
        join(v, rs(kv::rnd(4), k));
    }
}
