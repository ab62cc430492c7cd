// Environment shared by the engine and the native replay: clocks.
#include <cstdint>
#include <chrono>
#include <ctime>
extern "C" {
int64_t jrt_clock_ns = 1700000000000000000LL;
int64_t jrt_clock_step = 1000;
static int64_t tick() { jrt_clock_ns += jrt_clock_step; return jrt_clock_ns; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return tick(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return tick(); }
time_t __wrap_time(time_t* t) { time_t v = tick() / 1000000000; if (t) *t = v; return v; }
struct jtv { long a, b; };
int __wrap_gettimeofday(jtv* t, void*) { int64_t v = tick(); t->a = v / 1000000000; t->b = v / 1000 % 1000000; return 0; }
int __wrap_clock_gettime(int, jtv* t) { int64_t v = tick(); t->a = v / 1000000000; t->b = v % 1000000000; return 0; }
static unsigned rnd = 12345;
int (*jrt_rand_fn)();
int __wrap_rand() { if (jrt_rand_fn) return jrt_rand_fn(); rnd = rnd * 1103515245u + 12345u; return (rnd >> 1) & 0x7fffffff; }
void __wrap_srand(unsigned s) { rnd = s; }
}
