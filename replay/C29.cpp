#include "kv.h"
#include <sys/stat.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <string>
#include <set>
// stand-ins that record what they are asked and answer as the test says
static struct { std::string path; int found; unsigned mode, asked; int mk, mkcalls; unsigned mkmode; int openok, opens; std::multiset<void*> open; int closes, symcalls; void* sym; std::string msg; bool pending; int inbuf, code; } W;
static int kv_stat(const char* p, struct stat* s) { W.asked++; EXPECT(W.path == p, "stat(%s)", p); if (!W.found) { errno = ENOENT; return -1; } memset(s, 0x5a, sizeof *s); s->st_mode = W.mode; return 0; }
static int kv_mkdir(const char* p, unsigned m) { EXPECT(W.path == p, "mkdir(%s)", p); W.mkcalls++; W.mkmode = m; if (W.mk) errno = EEXIST; return W.mk; }
static char libs[64]; static int nlib;
static void* kv_dlopen(const char* p, int) { EXPECT(W.path == p, "dlopen(%s)", p); W.opens++; if (!W.openok) { W.pending = true; return nullptr; } void* h = &libs[nlib++ % 64]; W.open.insert(h); return h; }
static int kv_dlclose(void* h) { EXPECT(W.open.count(h), "dlclose of something that is not open"); W.open.erase(W.open.find(h)); W.closes++; return 0; }
static void* kv_dlsym(void* h, const char* s) { EXPECT(W.open.count(h), "dlsym of something that is not open"); EXPECT(!strcmp(s, "sym"), "dlsym(%s)", s); W.symcalls++; return W.sym; }
static char* kv_dlerror() { if (!W.pending) return nullptr; W.pending = false; return (char*)W.msg.c_str(); }
static char* kv_strerror_r(int c, char* b, size_t n) { EXPECT(c == W.code, "strerror_r(%d), not %d", c, W.code); if (!W.inbuf) return (char*)W.msg.c_str(); if (n) { size_t k = std::min(n - 1, W.msg.size()); memcpy(b, W.msg.data(), k); b[k] = 0; } return b; }
#include <amtl/am-platform.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
struct kvs : stat { };
#define stat(p, s) kv_stat(p, s)
#define mkdir kv_mkdir
#include <amtl/os/am-fsutil.h>
#undef stat
#undef mkdir
#define dlopen kv_dlopen
#define dlclose kv_dlclose
#define dlsym kv_dlsym
#define dlerror kv_dlerror
#define strerror_r kv_strerror_r
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>
using namespace ke;
static void text(const std::vector<char>& buf, size_t n, const std::string& want, const char* what) {
    for (size_t i = n; i < buf.size(); i++) EXPECT(buf[i] == 0x55, "%s: byte %zu of a buffer of %zu written", what, i, n);
    if (!n) return;
    size_t k = std::min(n - 1, want.size());
    EXPECT(!memcmp(buf.data(), want.data(), k) && buf[k] == 0, "%s: '%.*s'", what, (int)n, buf.data());
}
void kv_main() {
    const unsigned types[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK, 0};
    while (kv::time_left()) {
        W.path = "p" + std::to_string(kv::rnd(1000)); W.found = kv::rnd(3) != 0; W.mode = types[kv::rnd(8)] | kv::rnd(010000); W.mk = kv::rnd(2) ? 0 : -1; W.mkcalls = 0;
        kv::begin("path %s found %d mode %o mkdir %d", W.path.c_str(), W.found, W.mode, W.mk);
        const char* p = W.path.c_str();
        EXPECT(file::PathExists(p) == (W.found != 0), "PathExists");
        EXPECT(file::IsFile(p) == (W.found && (W.mode & S_IFMT) == S_IFREG), "IsFile");
        EXPECT(file::IsDirectory(p) == (W.found && (W.mode & S_IFMT) == S_IFDIR), "IsDirectory");
        unsigned pm = kv::rnd(01000);
        EXPECT(file::CreateDirectory(p, pm) == (W.mk == 0) && W.mkcalls == 1 && W.mkmode == pm, "CreateDirectory");
        W.openok = kv::rnd(2); W.opens = W.closes = 0; W.pending = false; W.msg = std::string(kv::rnd(kv::rnd(2) ? 6 : 300), 'm'); for (auto& c : W.msg) c = "abc%s "[kv::rnd(6)];
        size_t n = kv::rnd(kv::rnd(2) ? 8 : 300); std::vector<char> buf(n + 8, 0x55); bool nob = !kv::rnd(5), plain = !kv::rnd(6);
        kv::begin("open %d message '%s' buffer %zu null %d", W.openok, W.msg.c_str(), n, nob);
        { RefPtr<SharedLib> l = plain ? SharedLib::Open(p) : SharedLib::Open(p, nob ? nullptr : buf.data(), n);
          EXPECT(W.opens == 1 && W.closes == 0, "opened %d closed %d", W.opens, W.closes);
          EXPECT(!!l == (W.openok != 0), "result");
          if (l) { EXPECT(l->valid() && (bool)*l, "valid"); W.sym = kv::rnd(2) ? &W : nullptr; EXPECT(l->lookup("sym") == W.sym && l->get<char*>("sym") == W.sym, "lookup"); RefPtr<SharedLib> m = l; l = nullptr; EXPECT(W.closes == 0, "closed early"); }
          if (W.openok || nob || plain) { for (char c : buf) EXPECT(c == 0x55, "buffer written"); } else text(buf, n, W.msg, "Open"); }
        EXPECT(W.closes == (W.openok ? 1 : 0) && W.open.empty(), "closed %d times", W.closes);
        { RefPtr<SharedLib> a = new SharedLib(); EXPECT(!a->valid()); W.closes = 0; void* h = &libs[0]; W.open.insert(h); { RefPtr<SharedLib> b = new SharedLib(h); EXPECT(b->valid()); } EXPECT(W.closes == 1 && W.open.empty(), "handle closed %d times", W.closes); }
        EXPECT(W.closes == 1, "closed without a library");
        W.code = kv::rnd(200); W.inbuf = kv::rnd(2); std::fill(buf.begin(), buf.end(), 0x55);
        kv::begin("error text '%s' buffer %zu in buffer %d", W.msg.c_str(), n, W.inbuf);
        FormatSystemErrorCode(W.code, buf.data(), n); text(buf, n, W.msg, "FormatSystemErrorCode");
        std::fill(buf.begin(), buf.end(), 0x55); errno = W.code; FormatSystemError(buf.data(), n); text(buf, n, W.msg, "FormatSystemError");
    }
}
