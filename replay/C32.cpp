// FLAGS: -pthread
#include "kv.h"
#include "track.h"
#include <pthread.h>
#include <amtl/am-thread.h>
#include <atomic>
#include <memory>
static std::atomic<int> ran, live;
static pthread_t me;
static char got_name[64];
static uint64_t got_a; static std::string got_s; static bool in_other; static unsigned id_run;
struct Job {
    unsigned id; char pad[40];
    Job(unsigned i) : id(i) { live++; }
    Job(const Job& o) : id(o.id) { live++; }
    Job(Job&& o) : id(o.id) { o.id = ~0u; live++; }
    ~Job() { live--; id = 0xdead; }
    void operator()(uint64_t a, const std::string& s) { mark(id, a, s); }
    static void mark(unsigned i, uint64_t a, const std::string& s) {
        char b[64] = ""; pthread_getname_np(pthread_self(), b, sizeof b); memcpy(got_name, b, 64);
        in_other = !pthread_equal(me, pthread_self()); got_a = a; got_s = s; id_run = i; ran++;
    }
};
static void plain(uint64_t a, const std::string& s) { Job::mark(7, a, s); }
void kv_main() {
    me = pthread_self();
    while (kv::time_left()) {
        std::string name(kv::rnd(16), 'n'); for (auto& c : name) c = 'a' + kv::rnd(26);
        uint64_t a = kv::rnd(); std::string s(kv::rnd(40), 's'); for (auto& c : s) c = 'A' + kv::rnd(26);
        unsigned id = kv::rnd(1000), how = kv::rnd(5); ran = 0; in_other = false; id_run = 5000; got_name[0] = 0;
        kv::begin("name '%s' a %llu s '%s' how %u", name.c_str(), (unsigned long long)a, s.c_str(), how);
        char before[64]; pthread_getname_np(me, before, sizeof before);
        std::unique_ptr<std::thread> t;
        {   // everything the starter had ends before the thread is joined
            std::unique_ptr<char[]> n(new char[name.size() + 1]); memcpy(n.get(), name.c_str(), name.size() + 1);
            std::unique_ptr<std::string> s2(new std::string(s)); std::unique_ptr<uint64_t> a2(new uint64_t(a)); std::unique_ptr<Job> j(new Job(id));
            switch (how) {
                case 0: t = ke::NewThread(n.get(), *j, *a2, *s2); break;
                case 1: t = ke::NewThread(n.get(), std::move(*j), std::move(*a2), std::move(*s2)); break;
                case 2: t = ke::NewThread(n.get(), plain, *a2, *s2); break;
                case 3: { auto l = [q = *j, x = *a2, y = *s2]() { Job::mark(q.id, x, y); }; t = ke::NewThread(n.get(), l); break; }
                case 4: t = ke::NewThread(n.get(), *(const Job*)j.get(), a, *(const std::string*)s2.get()); break;
            }
            if (how != 1) EXPECT(j->id == id && *s2 == s && *a2 == a, "the caller's objects changed");
            memset(n.get(), 'X', name.size());
        }
        EXPECT(t && t->joinable(), "no thread");
        t->join(); t.reset();
        EXPECT(ran == 1, "ran %d times", (int)ran);
        EXPECT(in_other, "ran in the starting thread");
        EXPECT(id_run == (how == 2 ? 7 : id) && got_a == a && got_s == s, "wrong callable or arguments");
        EXPECT(name == got_name, "named '%s' when it ran", got_name);
        EXPECT(live == 0, "%d callables left", (int)live);
        char after[64]; pthread_getname_np(me, after, sizeof after); EXPECT(!strcmp(before, after), "the starting thread was renamed");
    }
}
