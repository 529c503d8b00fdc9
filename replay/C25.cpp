#include "kv.h"
#include <chrono>
#include <amtl/am-time.h>
using namespace std::chrono;
template <typename D> struct Clk { typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<Clk> time_point; static constexpr bool is_steady = true; };
typedef __int128 W;
static const int64_t G = 1000000000;
template <typename C> static void tp(const char* nm, timespec ts, W n, int64_t res) {
    int64_t got = ke::TimespecToTimePoint<C>(ts).time_since_epoch().count();
    EXPECT((W)got == n / res * res, "TimespecToTimePoint<%s> gives %lld", nm, (long long)got);
}
template <typename P, typename T> static void ep(T v) { kv::begin("EpochValueToTimePoint %lld", (long long)v); P p = ke::EpochValueToTimePoint<P>(v); EXPECT((W)p.time_since_epoch().count() == (W)v); }
static void one(int64_t s, int64_t n) {
    W t = (W)s * G + n;
    if (t > INT64_MAX || t < INT64_MIN || (W)s * G > INT64_MAX || (W)s * G < INT64_MIN) return;
    kv::begin("timespec %lld s %lld ns", (long long)s, (long long)n);
    timespec ts; ts.tv_sec = s; ts.tv_nsec = n;
    EXPECT((W)ke::TimespecToDuration(ts).count() == t, "TimespecToDuration gives %lld", (long long)ke::TimespecToDuration(ts).count());
    tp<system_clock>("system_clock", ts, t, 1); tp<steady_clock>("steady_clock", ts, t, 1);
    tp<Clk<microseconds>>("us", ts, t, 1000); tp<Clk<milliseconds>>("ms", ts, t, 1000000); tp<Clk<seconds>>("s", ts, t, G); tp<Clk<minutes>>("min", ts, t, 60 * G);
}
void kv_main() {
    std::vector<int64_t> sec = {0, 1, -1, 2, -2, 59, 60, 1609459200, -1609459200, 2147483647, 2147483648ll, -2147483648ll, 4294967296ll, 9223372036ll, -9223372036ll, 9007199, 9007200, 1ll << 33};
    std::vector<int64_t> ns = {0, 1, 2, 999, 1000, 999999, 1000000, 500000000, 999999999, -1, -999999999, 854775807, 1000000000, 2147483648ll, 145224192};
    for (size_t i = 0; i + 1 < kv::g_hints.size(); i += 2) one(kv::g_hints[i], kv::g_hints[i + 1]);
    for (auto s : sec) for (auto n : ns) one(s, n);
    auto eps = [](int64_t v) { ep<system_clock::time_point>(v); ep<time_point<system_clock, seconds>>(v); ep<time_point<steady_clock, milliseconds>>(v); ep<Clk<minutes>::time_point>(v); ep<system_clock::time_point>((int)v); ep<system_clock::time_point>((unsigned)v); ep<time_point<system_clock, seconds>>((int)v); };
    for (auto v : kv::ints(64)) eps(v);
    for (auto v : kv::g_hints) eps(v);
    for (int i = 0; i < 300000; i++) { int64_t s = (int64_t)kv::rnd() >> (kv::rnd(64)); one(s, kv::rnd(G)); one(s % 9223372036ll, kv::rnd(G)); eps((int64_t)kv::rnd() >> kv::rnd(64)); }
}
