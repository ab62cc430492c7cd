//@ src
//@ threads
//@ flags -std=c++17
//@ run C18 quick args=0-9 time=120 cover=1 -- the thread pool with one worker (even args) or none/two (odd): two tasks added and shut down at any moment (args 0-1), both waited for (2-3), the first cancelled at any moment (4-5), one with a 5 ms timer (6-7), with one spurious wake-up and expiring sleeps (8-9); told about cancelled tasks or not; all interleavings with at most 2 preemptions (1 in 8-9; 1 with none/two workers)
//@ run C18 thorough args=0-9 time=850 cover=1 -- as quick with one more preemption
//@ assume interleavings are sequentially consistent; threads switch at atomic operations, lock operations and yields
#include "sym.h"
#include <string>
#include "simple_thread_pool.h"
#include <cstring>
using namespace simple_thread_pool;
extern "C" { extern int64_t jrt_clock_ns; }
static int nRun[3], nCancel[3], badRes; static uint64_t val[3], sum; static bool cancelled[3], over; static int64_t due[3];
static std::shared_ptr<TaskHandle> th[3];
static std::mutex mx; static std::condition_variable cv;
static TaskHandler task(int i) {
    return [i](const TaskResult& r) {
        sym_assert(!over, "a handler runs after shutdown() returned");
        std::lock_guard<std::mutex> l(mx);
        if (r.ok()) { nRun[i]++; sum ^= val[i]; cv.notify_all(); sym_assert(jrt_clock_ns >= due[i], "timer task fired early"); }
        else { sym_assert(r.value() == TaskResult::CANCELED, "wrong result code"); nCancel[i]++; }
    };
}
// arg: bit 0: one worker / two (or none); bits 1-2: scenario
HARNESS {
    unsigned a = sym_arg();
    size_t nw = (a & 1) ? (sym_choose(0, 1, "pool") ? 2 : 0) : 1;
    int sc = a >> 1;
    ThreadPoolOptions o; o.numInitialThreads = nw; o.invokeCanceledTask = sym_choose(0, 1, "notify");
    ThreadPoolMgr* m = new ThreadPoolMgr();
    int B = (sym_tier() ? 3 : 2) - (sc == 4 || (a & 1));
    if (!sc) sym_preempt_budget(B);
    m->init(o);
    if (sc) { for (int k = 0; k < 8; ++k) sym_yield(); if (sc == 4) { sym_spurious(1); sym_timeouts(1); } sym_preempt_budget(B); }
    int n = 0; for (auto& v : val) v = sym_u64("payload");
    auto add = [&](uint64_t us) { due[n] = jrt_clock_ns + us * 1000; th[n] = m->addTask(task(n), us); n++; };
    bool wait = false;
    if (sc == 0) { add(0); add(0); }                                      // added, then shut down at any time
    else if (sc == 1 || sc == 4) { add(0); add(0); wait = true; }                    // both must run
    else if (sc == 2) { add(0); add(0); cancelled[0] = th[0]->cancel(); wait = true; }
    else { add(5000); add(0); wait = true; }
    if (wait) {
        for (int i = 0; i < n; ++i) {
            std::unique_lock<std::mutex> l(mx);
            while (!cancelled[i] && !nRun[i]) cv.wait(l);            // a task never executed: every thread waits for ever
        }
        sym_cover(1);
    }
    m->shutdown();
    over = true;
    sym_preempt_budget(0);
    for (int i = 0; i < n; ++i) {
        sym_assert(th[i]->isDone(), "a task is neither executed nor cancelled at shutdown");
        if (cancelled[i]) sym_assert(!nRun[i], "a cancelled task was executed");
        else if (wait) sym_assert(nRun[i] == 1, "a task is not executed exactly once");
        sym_assert(nRun[i] <= 1 && nCancel[i] <= 1 && nRun[i] + nCancel[i] <= 1, "a task is executed and cancelled, or twice");
        if (o.invokeCanceledTask) sym_assert(nRun[i] + nCancel[i] == 1, "a handler is not called at all");
        th[i].reset();
    }
    if (!wait) sym_cover(1);
    uint64_t want = 0; for (int i = 0; i < n; ++i) if (nRun[i]) want ^= val[i];
    sym_assert(sum == want, "handlers interfere");
    delete m;
    for (int k = 0; k < 30; ++k) sym_yield();
}
