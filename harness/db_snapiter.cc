//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C24 quick args=0-7 time=60 cover=1 -- four keys, each absent, in a table, in a log file, overwritten in the log after the snapshot, or only written after it (arg: choice for the first key and log file size); then walks, seeks with a step away and back, and point reads on the snapshot
//@ run C24 thorough args=0-9 time=800 cover=1 -- as quick plus deletions after the snapshot
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb", "kc", "kd"});
    w.c.maxEntriesInLogFile = (a & 1) ? 2 : 8;
    w.start();
    int st[4];
    for (int i = 0; i < 4; ++i) st[i] = i == 0 ? (int)(a >> 1) : (int)sym_choose(0, 4, "state");
    for (int i = 0; i < 4; ++i) if (st[i] == 1) w.set(i);
    w.flush();
    for (int i = 0; i < 4; ++i) if (st[i] == 2 || st[i] == 4) w.set(i);
    uint64_t S = w.seq;
    DB* snap = nullptr;
    sym_assert(w.db->openSnapshot(&snap).ok(), "openSnapshot failed");
    for (int i = 0; i < 4; ++i) if (st[i] == 3 || st[i] == 4) { if (sym_tier() && sym_choose(0, 1, "del")) w.del(i); else w.set(i); }
    if (sym_choose(0, 1, "flush")) w.flush();
    w.checkAll(snap, S, "snapshot point read");
    w.checkIter(snap, S, true, "snapshot iteration");
    w.checkSeek(snap, S, "snapshot seek");
    w.checkSeqIter(snap, S, "snapshot iteration by number");
    w.checkSeek(w.db, ~0ull, "seek with an open snapshot");
    sym_assert(DB::close(snap).ok(), "closing the snapshot failed");
    w.stop();
    sym_cover(1);
}
