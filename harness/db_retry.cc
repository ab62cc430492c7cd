//@ src ALL
//@ models mfs fdb_model inline_threads
//@ flags -fno-access-control
//@ run C40 quick args=0-3 time=300 cover=1,2,3 -- history over 2 keys, unsynced or partly synced writes (args 1, 3: 2 entries per log file; args 2, 3: direct I/O), then sync, sync with fsync, flush or L0 compaction with the k-th (k up to 80) write, fsync, truncation, creation, opening, renaming or removal of a file failing, once or from then on, cleanly or after a part of it; reads then match the model; then nothing, the operation again, a sync, or sync, flush and compaction, with or without a further write; process crash and reopen: everything acknowledged is there, and the database works on
//@ run C40 thorough args=0-3 time=1800 cover=1,2,3 -- history over 2 keys, unsynced or partly synced writes (args 1, 3: 2 entries per log file; args 2, 3: direct I/O), then sync, sync with fsync, flush or L0 compaction with the k-th (k up to 80) write, fsync, truncation, creation, opening, renaming or removal of a file failing, once or from then on, cleanly or after a part of it; reads then match the model; then nothing, the operation again, a sync, or sync, flush and compaction, with or without a further write; process crash and reopen: everything acknowledged is there, and the database works on
#include "dbx.h"
static bool run(World& w, int op) {
    switch (op) {
    case 0: return w.db->sync(false).ok();
    case 1: return w.db->sync(true).ok();
    case 2: { Status s = w.db->flushLogs(FlushOptions()); return s.ok() || s == Status::ALREADY_FLUSHED || s == Status::LOG_NOT_SYNCED; }
    default: return w.db->compactL0(CompactOptions(), 0).ok();
    }
}
HARNESS {
    World w; unsigned a = sym_arg();
    w.fixKeys({"pa", "pb"}); w.tagVals = true; w.c.maxEntriesInLogFile = (a & 1) ? 2 : 8;
    if (a & 2) w.c.directIoOpt.enabled = true;
    w.start();
    bool pre = sym_choose(0, 1, "synced before"); w.set(0); w.set(1); if (pre) w.sync(true);
    w.set(0); w.del(1);
    int op = (int)sym_choose(0, 3, "op");
    uint64_t solid = pre ? 2 : 0;
    if (op >= 2) { w.sync(true); solid = w.seq; if (op == 3) { w.flush(); w.set(0); } }
    mfs_fault_filter(MFS_OP_WRITE | MFS_OP_FSYNC | MFS_OP_TRUNC | MFS_OP_CREATE | MFS_OP_OPEN | MFS_OP_RENAME | MFS_OP_UNLINK);
    mfs_fault(sym_range(1, 80, "fault"), sym_choose(0, 1, "lasting") ? 100000 : 1, sym_choose(1, 2, "kind"));
    bool ok = run(w, op);
    bool hit = mfs_faults_hit() > 0;
    mfs_fault(0, 0, 0);
    sym_assert(hit || ok, "an operation fails without a fault");
    if (hit) sym_cover(ok ? 3 : 2); else { sym_cover(1); return; }
    if (ok && op == 1) solid = w.seq;
    w.checkAll("state after a failed operation");
    if (sym_choose(0, 1, "write")) w.set(0);
    int then = (int)sym_choose(0, 3, "then");
    if (then == 1) { sym_assert(run(w, op), "an operation repeated after the fault is gone fails"); }
    if (then == 2 || then == 1) { sym_assert(w.db->sync(true).ok(), "sync after the fault is gone fails"); solid = w.seq; }
    if (then == 3) { w.sync(true); solid = w.seq; w.flush(); w.compactL0(); }
    w.die();
    w.open();
    if (solid == w.seq) {
        w.checkAll("what a sync after a failed one acknowledged is lost");
        w.checkIter(w.db, ~0ull, false, "what a sync after a failed one acknowledged is lost");
    } else {
        uint64_t got = ~0ull;
        for (uint64_t n = solid; n <= w.seq; ++n) {
            bool same = true;
            for (int k = 0; k < w.nk; ++k) { SizedBuf o; Status q = w.db->get(w.key(k), o); const Ent* e = w.last(k, n); bool live = e && !e->del; if (q.ok() != live || (live && !w.valIs(o, e->val))) same = false; o.free(); }
            if (same) got = n;
        }
        sym_assert(got <= w.seq, "after a failed operation and a crash, synced records are missing or others are there");
        w.seq = got; while (w.h.size() > got) w.h.pop_back();
    }
    w.set(1); w.sync(true); w.reopen();
    w.checkAll("state some time after a failed operation");
    w.stop();
}
