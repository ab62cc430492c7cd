//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C25 quick args=0-5 time=100 cover=1 -- log files that fill up between syncs: every program of 6 (args 3-5: 5) operations out of {set a key, sync, flush logs to tables} with log files of 2 (args 0, 3), 3 (1, 4) records or of about two values (2, 5), then the process dying (0-2) or the power failing (3-5), recovery and further work
//@ run C25 thorough args=0-5 time=900 cover=1 -- as quick with two more operations
#include "dbrec.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool power = a >= 3;
    w.tagVals = true;
    w.fixKeys({"pa", "pb"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; };
    switch (a % 3) {
    case 0: w.c.maxEntriesInLogFile = 2; break;
    case 1: w.c.maxEntriesInLogFile = 3; break;
    case 2: w.c.maxLogFileSize = 60; break;
    }
    mfs_reset(); fdb_model_reset(); w.boot();
    size_t solid = 0;
    w.open();
    mfs_coarse(2);
    int n = (power ? 5 : 6) + (sym_tier() ? 2 : 0);
    w.flushFsync = power;
    for (int i = 0; i < n; ++i) {
        switch (sym_choose(0, 2, "op")) {
        case 0: w.set(i % 2); break;
        case 1: w.sync(power); solid = w.h.size(); break;
        case 2: w.flush(); solid = w.h.size(); break;
        }
    }
    mfs_crash_now(power ? MFS_POWER : MFS_KILL);
    w.die();
    Status s = w.tryOpen();
    sym_assert(s.ok(), "the database does not open after a crash");
    recovered(w, solid);
    sym_cover(1);
}
