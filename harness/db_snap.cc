//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C24 quick args=0-7 time=60 cover=1,2 -- every program of 2 operations (write, delete, overwrite of two keys, flush, flush+compaction), a snapshot of that moment, every program of 2 further operations, then point reads, records, key iteration both ways, seeks and sequence iteration of the snapshot, of the database, and again after the snapshot was closed; args: prepared prefix in log / L0 / L1 / both, one or many records per log file
//@ run C24 thorough args=0-7 time=800 cover=1,2 -- as quick with 3 operations before and after
#include "dbx.h"
static World* W;
static void op(bool last) {
    World& w = *W;
    switch (sym_choose(0, 5, "op")) {
    case 0: w.set(0); break;
    case 1: w.del(0); break;
    case 2: w.set(1); break;
    case 3: w.flush(); break;
    case 4: w.flush(); w.compactL0(); break;
    case 5: w.set(0); w.set(0); break;
    }
}
static void all(DB* d, uint64_t upto, const char* msg) {
    World& w = *W;
    w.checkAll(d, upto, msg);
    for (int i = 0; i < w.nk; ++i) {
        Record r; Status s = d->getRecordByKey(w.key(i), r);
        if (w.live(i, upto)) sym_assert(s.ok() && w.recIs(r, i, upto), msg); else sym_assert(!s.ok() || r.isDel(), msg);
        r.free();
    }
    w.checkIter(d, upto, true, msg);
    w.checkSeek(d, upto, msg);
    w.checkSeqIter(d, upto, msg);
}
HARNESS {
    World w; W = &w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    w.start();
    switch (a >> 1) {
    case 0: break;
    case 1: w.set(0); w.set(1); w.flush(); break;
    case 2: w.set(0); w.set(1); w.flush(); w.compactL0(); break;
    case 3: w.set(0); w.set(1); w.flush(); w.compactL0(); w.set(0); w.flush(); w.set(1); break;
    }
    int n = sym_tier() ? 3 : 2;
    for (int i = 0; i < n; ++i) op(false);
    uint64_t S = w.seq;
    DB* snap = nullptr;
    sym_assert(w.db->openSnapshot(&snap).ok(), "openSnapshot failed");
    all(snap, S, "fresh snapshot does not show the current state");
    for (int i = 0; i < n; ++i) op(true);
    if (w.seq > S) sym_cover(1); else sym_cover(2);
    all(snap, S, "snapshot does not show the state at the moment it was opened");
    all(w.db, ~0ull, "database with an open snapshot does not show the current state");
    sym_assert(DB::close(snap).ok(), "closing the snapshot failed");
    w.checkAll("database does not show the current state after closing the snapshot");
    w.checkIter(w.db, ~0ull, true, "iteration does not show the current state after closing the snapshot");
    w.stop();
}
