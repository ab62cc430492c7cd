//@ src worker_mgr.cc
//@ threads
//@ run C18 quick args=0-3 time=120 cover=1 -- worker threads: a worker invoked 1 to 3 times at any moment, its configuration replaced in between, its manager destroyed at any time (arg 0), after waiting for the work (1), with two workers (2), with one spurious wake-up and expiring sleeps (3); all interleavings with at most 2 preemptions at lock and atomic operations
//@ run C18 thorough args=0-3 time=800 cover=1 -- as quick with at most 3 preemptions
//@ assume interleavings are sequentially consistent; threads switch at atomic operations, lock operations and yields
#include "sym.h"
#include <cstdlib>
#include <mutex>
#include "worker_mgr.h"
#include "db_mgr.h"
using namespace jungle;
DBMgr* DBMgr::getWithoutInit() { static DBMgr* m = (DBMgr*)calloc(1, sizeof(DBMgr)); return m; }
static std::mutex mx; static std::condition_variable cv;
static bool over; static int nWork[2], nBusy[2], freed, asked[2], seen[2]; static uint64_t cfgSet, cfgSeen[2], cfgAtInvoke;
struct W : public WorkerBase {
    int id;
    W(int i) : id(i) { workerName = i ? "w_1" : "w_0"; gConfig = GlobalConfig(); status = NO_INSTANCE; handle = std::thread(&WorkerBase::loop, this); }
    ~W() { sym_assert(!nBusy[id], "a worker is destroyed while it works"); freed++; }
    void work() override {
        std::unique_lock<std::mutex> l(mx);
        sym_assert(!over, "a worker works after its manager was destroyed");
        sym_assert(status.load() != STOP, "a stopped worker works");
        seen[id] = asked[id]; nBusy[id]++; l.unlock();
        l.lock();
        nBusy[id]--; nWork[id]++; cv.notify_all();
    }
    void applyNewGlobalConfig(const GlobalConfig& g) override { sym_assert(!nBusy[id], "configuration replaced while the worker works"); cfgSeen[id] = g.numTableWriters; }
};
HARNESS {
    unsigned a = sym_arg();
    int B = sym_tier() ? 3 : 2, nw = a == 2 ? 2 : 1;
    sym_spurious(a == 3); sym_timeouts(a == 3);
    WorkerMgr* m = new WorkerMgr();
    W* w[2];
    for (int i = 0; i < nw; ++i) { w[i] = new W(i); sym_assert(m->addWorker(w[i]), "addWorker"); sym_assert(m->getWorker(w[i]->name()) == w[i], "getWorker"); }
    sym_assert(m->addWorker(w[0]) == Status::ALREADY_EXIST && !m->getWorker("w_7"), "worker names");
    if (nw == 2) sym_preempt_budget(B - 1); else sym_preempt_budget(B);
    for (int i = 0; i < nw; ++i) w[i]->run();
    int k = sym_tier() ? 3 : 2;
    bool all = nw == 2 && sym_choose(0, 1, "all");
    if (sym_choose(0, 1, "cfg")) { GlobalConfig g; g.numTableWriters = cfgSet = sym_range(3, 9, "writers"); m->updateGlobalConfig(g); }
    for (int j = 0; j < k; ++j) {
        int t = nw == 2 && !all && j ? 1 : 0;
        { std::lock_guard<std::mutex> l(mx); asked[t]++; if (all) asked[1]++; }
        if (all) sym_assert(m->invokeWorker("w_", true), "invoke");
        else sym_assert(m->invokeWorker(t ? "w_1" : "w_0"), "invoke");
        if (a && j == k - 1) {   // every request is followed by work that started after it
            std::unique_lock<std::mutex> l(mx);
            for (int i = 0; i < nw; ++i) { while (asked[i] && (seen[i] < asked[i] || nBusy[i])) cv.wait(l); sym_assert(nWork[i] >= (asked[i] ? 1 : 0), "no work"); }
            sym_cover(1);
        }
    }
    if (cfgSet && a == 1) { m->invokeWorker("w_0"); }
    delete m;
    over = true;
    sym_preempt_budget(0);
    sym_assert(freed == nw, "a worker is not destroyed");
    if (cfgSet && a && a != 2) sym_assert(cfgSeen[0] == cfgSet || cfgSeen[0] == 0, "another configuration applied");
    if (!a) sym_cover(1);
    for (int i = 0; i < 20; ++i) sym_yield();
}
