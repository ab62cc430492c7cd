//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C25 quick args=0-15 time=150 cover=2 -- every program of 3 (process death, args 0-2), 2 (process death, args 3, 8-11) or 1 (power failure) operations out of {set k, delete k, sync, flush logs to tables (with the logs fsynced first in the power-failure programs), flush and compact L0, close and reopen} over 2 keys on an empty (args 0-7) or populated (8-15) database, the process dying (arg%8 < 4) or the power failing at every file-system operation of it, then recovery, further writes, a reopen, a flush and a compaction; arg%4 selects the configuration; after a power failure every file has its unsynced changes or none has, except one that has a prefix of them, the last one possibly in half (first, half or all but the last in quick)
//@ run C25 thorough args=0-15 time=900 cover=2 -- as quick with one more operation, and every prefix of a file's unsynced changes
#include "dbrec.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool power = a % 8 >= 4;
    w.tagVals = true;
    w.fixKeys({"pa", "pb"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; };
    switch (a % 4) {
    case 0: break;
    case 1: w.c.maxEntriesInLogFile = 1; break;
    case 2: w.c.nextLevelExtension = false; break;
    case 3: w.c.numL0Partitions = 2; w.c.maxEntriesInLogFile = 2; w.c.bloomFilterBitsPerUnit = 0.001; break;
    }
    mfs_reset(); fdb_model_reset(); w.boot();
    size_t solid = 0;            // this many of the history survive for sure
    w.open();
    mfs_coarse(sym_tier() ? 1 : 2);
    if (a >= 8) { w.flushFsync = power; w.set(0); w.flush(); w.compactL0(); w.set(1); w.flush(); w.del(0); w.sync(true); solid = w.h.size(); }
    mfs_crash_at(sym_range(1, 2000, "crash"), power ? MFS_POWER : MFS_KILL);
    auto done = [&](bool durable) { if (!mfs_crashed() && (durable || !power)) solid = w.h.size(); };
    int n = (power ? 1 : a < 3 ? 3 : 2) + (sym_tier() ? 1 : 0);
    w.flushFsync = power;
    for (int i = 0; i < n && !mfs_crashed(); ++i) {
        switch (sym_choose(0, 6, "op")) {
        case 0: w.set(0); break;
        case 1: w.del(0); break;
        case 2: w.set(1); break;
        case 3: w.sync(power); done(true); break;
        case 4: w.flush(); done(true); break;
        case 5: w.flush(); if (!mfs_crashed()) { done(true); w.compactL0(); } break;
        case 6: w.close(); done(true); if (!mfs_crashed()) w.open(); break;
        }
    }
    if (!mfs_crashed()) mfs_crash_now(power ? MFS_POWER : MFS_KILL); else sym_cover(1);
    w.die();
    Status s = w.tryOpen();
    sym_assert(s.ok(), "the database does not open after a crash");
    recovered(w, solid);
    sym_cover(2);
}
