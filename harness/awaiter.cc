//@ src
//@ threads
//@ run C18 quick args=0-3 time=60 cover=1 -- EventAwaiter: one waiter consuming two invocations from one (args 0, 2) or two threads (1, 3), with or without time limit, with a spurious wake-up and time limits that expire at any moment (2, 3); all interleavings with at most 3 preemptions
//@ run C18 thorough args=0-3 time=600 cover=1 -- as quick with at most 5 preemptions
//@ assume interleavings are sequentially consistent; threads switch at atomic operations, lock operations and yields
#include "sym.h"
#include <mutex>
#include <condition_variable>
#include "event_awaiter.h"
extern "C" { extern int64_t jrt_clock_ns; }
static EventAwaiter* ea; static volatile int posted, started; static int consumed, woken; static bool timed;
static void post(void*) { started++; posted++; ea->invoke(); }
static void post2(void*) { started++; posted++; ea->invoke(); started++; posted++; ea->invoke(); }
HARNESS {
    unsigned a = sym_arg();
    bool two = a & 1; int need = 2;
    timed = sym_choose(0, 1, "timed");
    if (a >= 2) { sym_spurious(1); sym_timeouts(1); }
    ea = new EventAwaiter();
    sym_preempt_budget(sym_tier() ? 5 : 3);
    int t[2]; int n = two ? 2 : 1;
    for (int i = 0; i < n; ++i) t[i] = sym_thread_create(two ? post : post2, nullptr);
    while (consumed < need) {
        int64_t t0 = jrt_clock_ns;
        const uint64_t l = 5000;
        if (timed) ea->wait_us(l); else ea->wait();
        bool expired = timed && jrt_clock_ns - t0 >= (int64_t)l * 1000;
        if (!expired) sym_assert(++woken <= started, "the wait ends without an invocation and before its time limit");
        ea->reset();
        consumed = posted;         // everything posted before the reset is seen here, the rest invokes again
    }
    sym_cover(1);
    for (int i = 0; i < n; ++i) sym_thread_join(t[i]);
    sym_preempt_budget(0);
    delete ea;
}
