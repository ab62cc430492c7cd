//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C21 quick args=0-9 time=60 cover=1 -- every program of 4 operations out of {set k, delete k, sync, flush logs to tables, flush and compact L0, close and reopen} over 2 keys (symbolic except in args 8 and 9, where the real hash is used) with symbolic values, then point reads of every key by value and by record; arg selects the configuration
//@ run C21 thorough args=0-9 time=800 cover=1 -- as quick with 5 operations
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.symKeys(2);
    switch (a) {
    case 0: break;
    case 1: w.c.maxEntriesInLogFile = 1; break;
    case 2: w.c.nextLevelExtension = false; break;
    case 3: w.c.purgeDeletedDocImmediately = false; break;
    case 4: w.c.bloomFilterBitsPerUnit = 0.001; break;
    case 5: w.c.numL0Partitions = 2; break;
    case 6: w.c.fastIndexScan = true; break;
    case 7: w.c.minNumTablesPerLevel = 1; break;
    case 8: w.fixKeys({"a", "bc"}); w.c.customLenForHash = nullptr; w.c.bloomFilterBitsPerUnit = 1.0; w.c.numL0Partitions = 2; break;
    case 9: w.fixKeys({"a", "ab"}); w.c.customLenForHash = nullptr; w.c.lookupBoosterLimit_mb = {1, 1}; break;
    }
    w.start();
    int n = sym_tier() ? 5 : 4;
    for (int i = 0; i < n; ++i) {
        switch (sym_choose(0, 7, "op")) {
        case 0: w.set(0); break;
        case 1: w.del(0); break;
        case 2: w.set(1); break;
        case 3: w.del(1); break;
        case 4: w.sync(); break;
        case 5: w.flush(); break;
        case 6: w.flush(); w.compactL0(); break;
        case 7: w.reopen(); break;
        }
    }
    w.checkAll("point read does not return the latest value");
    for (int i = 0; i < w.nk; ++i) {
        const Ent* e = w.last(i);
        Record r; Status s = w.db->getRecordByKey(w.key(i), r);
        if (e && !e->del) sym_assert(s.ok() && w.recIs(r, i, ~0ull), "record read does not return the latest record");
        else sym_assert(!s.ok() || r.isDel(), "record read returns a deleted or absent key");
        r.free();
    }
    w.stop();
    sym_cover(1);
}
