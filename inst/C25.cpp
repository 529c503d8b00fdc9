#include <stddef.h>
#include <stdint.h>
#include <chrono>
#include <amtl/am-time.h>
using namespace std::chrono;
template <typename D> struct Clk { typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<Clk> time_point; static constexpr bool is_steady = true; static time_point now(); };
typedef Clk<microseconds> Us; typedef Clk<milliseconds> Ms; typedef Clk<seconds> Sec; typedef Clk<duration<int64_t, std::ratio<60>>> Min; typedef Clk<duration<int64_t, std::ratio<1, 100>>> Cs;
template <typename C> static int64_t tp(int64_t s, int64_t n) { timespec ts; ts.tv_sec = s; ts.tv_nsec = n; time_point<C, nanoseconds> t = ke::TimespecToTimePoint<C>(ts); return t.time_since_epoch().count(); }
template <typename P, typename T> static typename P::rep ep(T v) { P t = ke::EpochValueToTimePoint<P>(v); return t.time_since_epoch().count(); }
extern "C" {
int64_t c25_dur(int64_t s, int64_t n) { timespec ts; ts.tv_sec = s; ts.tv_nsec = n; nanoseconds d = ke::TimespecToDuration(ts); return d.count(); }
int64_t c25_sys(int64_t s, int64_t n) { return tp<system_clock>(s, n); }
int64_t c25_steady(int64_t s, int64_t n) { return tp<steady_clock>(s, n); }
int64_t c25_us(int64_t s, int64_t n) { return tp<Us>(s, n); }
int64_t c25_ms(int64_t s, int64_t n) { return tp<Ms>(s, n); }
int64_t c25_cs(int64_t s, int64_t n) { return tp<Cs>(s, n); }
int64_t c25_sec(int64_t s, int64_t n) { return tp<Sec>(s, n); }
int64_t c25_min(int64_t s, int64_t n) { return tp<Min>(s, n); }
int64_t c25_ep_sys(int64_t v) { return ep<system_clock::time_point>(v); }
int64_t c25_ep_sys32(int v) { return ep<system_clock::time_point>(v); }
int64_t c25_ep_sysu32(unsigned v) { return ep<system_clock::time_point>(v); }
int64_t c25_ep_sec(int64_t v) { return ep<time_point<system_clock, seconds>>(v); }
int64_t c25_ep_sec32(int v) { return ep<time_point<system_clock, seconds>>(v); }
int64_t c25_ep_ms(int64_t v) { return ep<time_point<steady_clock, milliseconds>>(v); }
int64_t c25_ep_clk(int64_t v) { return ep<Min::time_point>(v); }
}
