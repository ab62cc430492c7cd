//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C27 quick args=0-3 time=170 cover=1,2,3,4,5 -- 4 keys in level 1 in one or (after two splits) three tables, one of them removed or overwritten again; every program of 3 operations out of {split level 1, merge level 1, move a table of level 1 to level 2, rewrite in place level 1 or 2, split or merge level 2, move level 2 to 3, write or remove a key with flush and L0 compaction, close and reopen}; a snapshot from before the program and the latest state are read (points, iteration forward and backward) after it; arg%2: minimum of 1 or 2 tables per level, arg/2: start from split tables
//@ run C27 thorough args=0-3 time=900 cover=1,2,3,4,5 -- as quick, 4 operations
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"pa", "pb", "pc", "pd"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; };
    w.c.maxEntriesInLogFile = 8;
    w.c.minNumTablesPerLevel = 1 + a % 2;
    w.c.minFileSizeToCompact = 0;
    w.start();
    auto down = [&]() { w.flush(); w.compactL0(); };
    for (int k = 0; k < w.nk; ++k) w.set(k);
    down();
    if (a / 2 % 2) for (int i = 0; i < 2; ++i) sym_assert(w.db->splitLevel(CompactOptions(), 1).ok(), "splitLevel failed");
    w.del(2); w.set(1);
    uint64_t C = 0; sym_assert(w.db->checkpoint(C, false).ok() && C == w.seq, "checkpoint failed");
    down();
    auto chk = [&](const char* m) {
        std::list<uint64_t> l; sym_assert(w.db->getCheckpoints(l).ok(), "getCheckpoints failed");
        for (uint64_t q : l) {
            sym_assert(q == C, "a checkpoint is listed that was never taken");
            DB* s = nullptr; sym_assert(w.db->openSnapshot(&s, q).ok(), "a listed checkpoint does not open");
            w.checkAll(s, q, m); w.checkIter(s, q, true, m);
            sym_assert(DB::close(s).ok(), "closing the snapshot failed");
        }
    };
    DB* snap = nullptr; uint64_t S = w.seq;
    bool early = true;
    sym_assert(w.db->openSnapshot(&snap).ok(), "openSnapshot failed");
    CompactOptions o;
    auto fine = [&](Status s, int cov, const char* m) { w.okOr(s, {Status::TABLE_NOT_FOUND, Status::INVALID_LEVEL, Status::COMPACTION_CANCELLED}, m); if (s.ok()) sym_cover(cov); };
    for (int i = 0, n = sym_tier() ? 4 : 3; i < n; ++i) switch (sym_choose(0, 10, "op")) {
    case 0: fine(w.db->splitLevel(o, 1), 1, "splitLevel failed"); break;
    case 1: fine(w.db->mergeLevel(o, 1), 2, "mergeLevel failed"); break;
    case 2: fine(w.db->compactLevel(o, 1), 3, "compactLevel failed"); break;
    case 3: fine(w.db->compactInplace(o, 1), 4, "compactInplace failed"); break;
    case 4: fine(w.db->compactLevel(o, 2), 5, "compactLevel of level 2 failed"); break;
    case 5: fine(w.db->splitLevel(o, 2), 1, "splitLevel of level 2 failed"); break;
    case 6: fine(w.db->mergeLevel(o, 2), 2, "mergeLevel of level 2 failed"); break;
    case 7: w.set(2); w.del(0); down(); break;
    case 8: w.del(3); w.set(3); w.del(1); down(); break;
    case 9: fine(w.db->compactInplace(o, 2), 4, "compactInplace of level 2 failed"); break;
    case 10: if (snap) sym_assert(DB::close(snap).ok(), "closing the snapshot failed"); snap = nullptr; w.reopen(); break;
    }
    w.checkAll("a value changed by moving tables");
    w.checkIter(w.db, ~0ull, true, "iteration changed by moving tables");
    if (snap) {
        w.checkAll(snap, S, "a snapshot changed by moving tables");
        w.checkIter(snap, S, false, "iteration over a snapshot changed by moving tables");
        sym_assert(DB::close(snap).ok(), "closing the snapshot failed");
    }
    chk("a checkpoint changed by moving tables");
    w.reopen();
    chk("a checkpoint changed by moving tables and reopening");
    w.checkAll("a value changed by moving tables and reopening");
    w.checkIter(w.db, ~0ull, false, "iteration changed by moving tables and reopening");
    w.stop();
}
