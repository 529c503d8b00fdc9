#include "kv.h"
#include <ctype.h>
static void kv_case(int c) { if (c < 0 || c > 255) kv::fail("toupper/tolower(%d): outside its domain", c); }
static int kv_up(int c) { kv_case(c); return toupper(c); }
static int kv_low(int c) { kv_case(c); return tolower(c); }
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <locale>
#define toupper kv_up
#define tolower kv_low
#include <amtl/am-string.h>
#undef toupper
#undef tolower
using namespace ke;
static std::string rs(size_t n, int k, bool nul) { std::string s; for (size_t i = 0; i < n; i++) { char c = k < 4 ? "aB"[kv::rnd(2)] : (char)kv::rnd(256); if (!c && !nul) c = 'x'; s += c; } return s; }
static void one(const std::string& a, const std::string& b) {
    kv::begin("first %s second %s", kv::esc(a).c_str(), kv::esc(b).c_str());
    std::string ca = a.c_str(), cb = b.c_str();
    { std::unique_ptr<char[]> p(new char[ca.size() + 1]); memcpy(p.get(), ca.c_str(), ca.size() + 1);
      std::string u = ca, l = ca; for (auto& c : u) c = toupper((unsigned char)c); for (auto& c : l) c = tolower((unsigned char)c);
      EXPECT(Uppercase(p.get()) == u, "Uppercase"); EXPECT(Lowercase(p.get()) == l, "Lowercase"); EXPECT(!memcmp(p.get(), ca.c_str(), ca.size() + 1)); }
    EXPECT(StartsWith(a, cb.c_str()) == (a.compare(0, cb.size(), cb) == 0), "StartsWith(string)");
    EXPECT(StartsWith(ca.c_str(), cb.c_str()) == (ca.compare(0, cb.size(), cb) == 0), "StartsWith(chars)");
    EXPECT(EndsWith(a, b) == (a.size() >= b.size() && !memcmp(a.data() + a.size() - b.size(), b.data(), b.size())), "EndsWith");
}
void kv_main() {
    for (int i = 0; i < 256; i++) one(std::string(1, (char)i), "");
    for (size_t n = 0; n < 5; n++) for (size_t m = 0; m < 5; m++) for (int k = 0; k < 200; k++) one(rs(n, 0, false), rs(m, 0, false));
    while (kv::time_left()) {
        std::string a = rs(kv::rnd(kv::rnd(2) ? 6 : 300), kv::rnd(6), kv::rnd(2)), b;
        switch (kv::rnd(4)) {
            case 0: b = rs(kv::rnd(6), 0, false); break;
            case 1: b = a.substr(0, kv::rnd(a.size() + 1)); break;
            case 2: b = a.substr(kv::rnd(a.size() + 1)); break;
            case 3: b = a; if (!b.empty()) b[kv::rnd(b.size())] ^= 1; break;
        }
        one(a, b); one(b, a);
    }
}
