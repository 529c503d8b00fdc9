// Entry points of the system wrappers.
#include <stddef.h>
#include <stdint.h>
#include <new>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>
using ke::SharedLib;
extern "C" {
extern const size_t c29_size = sizeof(SharedLib), c29_stat = sizeof(struct stat), c29_mode = offsetof(struct stat, st_mode);
bool c29_exists(const char* p) { return ke::file::PathExists(p); }
bool c29_file(const char* p) { return ke::file::IsFile(p); }
bool c29_dir(const char* p) { return ke::file::IsDirectory(p); }
bool c29_mkdir(const char* p, unsigned m) { return ke::file::CreateDirectory(p, m); }
bool c29_mkdir0(const char* p) { return ke::file::CreateDirectory(p); }
SharedLib* c29_open(const char* p, char* e, size_t n) { return ke::RefPtr<SharedLib>(SharedLib::Open(p, e, n)).forget().take(); }
SharedLib* c29_open1(const char* p) { return ke::RefPtr<SharedLib>(SharedLib::Open(p)).forget().take(); }
bool c29_valid(const SharedLib* l) { return l->valid(); }
bool c29_bool(const SharedLib* l) { return (bool)*l; }
void* c29_lookup(SharedLib* l, const char* s) { return l->lookup(s); }
int* c29_get(SharedLib* l, const char* s) { return l->get<int*>(s); }
void c29_addref(SharedLib* l) { l->AddRef(); }
void c29_release(SharedLib* l) { l->Release(); }
SharedLib* c29_new() { SharedLib* l = new SharedLib(); l->AddRef(); return l; }
SharedLib* c29_newh(void* h) { SharedLib* l = new SharedLib(h); l->AddRef(); return l; }
SharedLib* c29_newp(const char* p) { SharedLib* l = new SharedLib(p); l->AddRef(); return l; }
void c29_code(int c, char* e, size_t n) { ke::FormatSystemErrorCode(c, e, n); }
void c29_err(char* e, size_t n) { ke::FormatSystemError(e, n); }
}
