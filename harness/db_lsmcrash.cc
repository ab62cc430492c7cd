//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C27 quick args=0-3 time=170 cover=1,2 -- the same tables, the process dying (args 0-1) or the power failing (2-3) at every file-system operation of every program of 2 (1) of those operations that move tables; then recovery with nothing lost, a flush, a compaction of every level and a reopening
//@ run C27 thorough args=0-3 time=900 cover=1,2 -- as quick with one more operation
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool power = a >= 2;
    w.flushFsync = power;
    w.fixKeys({"pa", "pb", "pc", "pd"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; };
    w.c.maxEntriesInLogFile = 8;
    w.c.minNumTablesPerLevel = 1;
    w.c.minFileSizeToCompact = 0;
    w.start();
    auto down = [&]() { w.flush(); if (!mfs_crashed()) w.compactL0(); };
    for (int k = 0; k < w.nk; ++k) w.set(k);
    down();
    if (a % 2) for (int i = 0; i < 2; ++i) sym_assert(w.db->splitLevel(CompactOptions(), 1).ok(), "splitLevel failed");
    w.del(2); w.set(1); down();
    if (sym_choose(0, 1, "moved")) { w.okOr(w.db->compactLevel(CompactOptions(), 1), {}, "compactLevel failed"); w.set(0); w.del(3); w.set(2); down(); }
    CompactOptions o;
    mfs_coarse(sym_tier() ? 1 : 2);
    mfs_crash_at(sym_range(1, 1000, "crash"), power ? MFS_POWER : MFS_KILL);
    for (int i = 0, n = (power ? 1 : 2) + (sym_tier() ? 1 : 0); i < n && !mfs_crashed(); ++i) switch (sym_choose(0, 9, "op")) {
    case 0: w.db->splitLevel(o, 1); break;
    case 1: w.db->mergeLevel(o, 1); break;
    case 2: w.db->compactLevel(o, 1); break;
    case 3: w.db->compactInplace(o, 1); break;
    case 4: w.db->compactLevel(o, 2); break;
    case 5: w.db->splitLevel(o, 2); break;
    case 6: w.db->mergeLevel(o, 2); break;
    case 7: w.db->compactInplace(o, 2); break;
    case 8: w.compactL0(); break;
    case 9: w.close(); if (!mfs_crashed()) w.open(); break;
    }
    if (!mfs_crashed()) mfs_crash_now(power ? MFS_POWER : MFS_KILL); else sym_cover(1);
    w.die();
    sym_assert(w.tryOpen().ok(), "the database does not open after a crash while moving tables");
    w.checkAll("a value lost by a crash while moving tables");
    w.checkIter(w.db, ~0ull, true, "iteration after a crash while moving tables");
    w.set(3); w.del(1); down();
    w.checkAll("a value lost by a compaction after a crash while moving tables");
    for (int l = 1; l <= 2; ++l) w.okOr(w.db->compactLevel(o, l), {Status::TABLE_NOT_FOUND, Status::INVALID_LEVEL}, "compactLevel after a crash failed");
    w.checkAll("a value lost by moving tables after a crash while moving tables");
    w.reopen();
    w.checkAll("a value lost by a reopen after a crash while moving tables");
    w.checkIter(w.db, ~0ull, false, "iteration at the end");
    w.stop();
    sym_cover(2);
}
