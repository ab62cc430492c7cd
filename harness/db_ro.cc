//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C37 quick args=0-7 time=150 cover=1,2,3 -- every program of 3 (2 if populated) operations out of {write one of two keys, remove, sync, flush, flush and compact L0, checkpoint} on an empty (args 0-3) or populated (4-7) database, closed or left behind by a dying process; then opened read-only: every kind of write, synchronisation, flush, compaction and rollback is tried, everything is read; no file-system operation that changes anything happens, and a normal handle then finds what the read-only one found; arg%2: many or one record per log file; arg/2 odd: only the log section
//@ run C37 thorough args=0-7 time=800 cover=1,2,3 -- as quick, 4 (3) operations
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.c.maxEntriesInLogFile = a & 1 ? 1 : 3;
    bool logsec = a & 2;
    w.c.logSectionOnly = logsec;
    w.start();
    if (a & 4) { w.set(0); w.set(1); if (logsec) w.sync(); else { w.flush(); w.compactL0(); } w.set(0); w.sync(); }
    for (int i = 0, n = (sym_tier() ? 4 : 3) - (a >= 4); i < n; ++i) switch (sym_choose(0, logsec ? 4 : 6, "op")) {
    case 0: w.set(0); break;
    case 1: w.set(1); break;
    case 2: w.del(0); break;
    case 3: w.sync(); break;
    case 4: { uint64_t q; w.okOr(w.db->checkpoint(q, false), {}, "checkpoint failed"); break; }
    case 5: w.flush(); break;
    case 6: w.flush(); w.compactL0(); break;
    }
    uint64_t snc = 0; bool clean = sym_choose(0, 1, "closed");
    w.db->getLastSyncedSeqNum(snc); if (snc == NOT_INITIALIZED) snc = 0;
    if (clean) w.close(); else { mfs_crash_now(MFS_KILL); w.die(); }
    DBConfig normal = w.c;
    w.c.readOnly = true;
    uint64_t ops0 = mfs_ops();
    w.open();
    if (!clean) while (!w.h.empty() && w.h.back().seq > snc) { w.h.pop_back(); sym_cover(1); }
    uint64_t top = w.seq = w.h.empty() ? 0 : w.h.back().seq;
    sym_assert(w.db->isReadOnly(), "isReadOnly");
    auto look = [&](const char* m) {
        w.checkAll(m); w.checkIter(w.db, ~0ull, true, m); w.checkIter(w.db, ~0ull, false, m);
        uint64_t mx = 0; Status s = w.db->getMaxSeqNum(mx);
        sym_assert(top ? s.ok() && mx == top : !s.ok() || mx == 0 || mx == NOT_INITIALIZED, m);
    };
    look("a read-only handle does not read the last state");
    KV kv(w.key(0), SizedBuf(3, (void*)"new"));
    Record r; r.kv = kv; std::list<Record> l; l.push_back(r);
    sym_assert(!w.db->set(kv).ok(), "set on a read-only handle succeeds");
    sym_assert(!w.db->setSN(top + 5, kv).ok(), "setSN on a read-only handle succeeds");
    sym_assert(!w.db->setRecordByKey(r).ok(), "setRecordByKey on a read-only handle succeeds");
    r.seqNum = top + 5; sym_assert(!w.db->setRecord(r).ok(), "setRecord on a read-only handle succeeds");
    sym_assert(!w.db->setRecordBatch(l).ok(), "a batch on a read-only handle succeeds");
    sym_assert(!w.db->del(w.key(0)).ok(), "del on a read-only handle succeeds");
    sym_assert(!w.db->delSN(top + 5, w.key(1)).ok(), "delSN on a read-only handle succeeds");
    sym_assert(!w.db->delRecord(r).ok(), "delRecord on a read-only handle succeeds");
    look("a refused write on a read-only handle has an effect");
    sym_assert(mfs_ops() == ops0, "a read-only handle changed a file when it was opened, read or refused a write");
    uint64_t q = 0;
    switch (sym_choose(0, 9, "maintenance")) {
    case 0: w.db->sync(true); break;
    case 1: w.db->flushLogs(FlushOptions()); break;
    case 2: { FlushOptions o; o.purgeOnly = true; w.db->flushLogs(o, 1); break; }
    case 3: w.db->checkpoint(q); break;
    case 4: w.db->rollback(1); break;
    case 5: w.db->compactL0(CompactOptions(), 0); break;
    case 6: w.db->compactLevel(CompactOptions(), 1); break;
    case 7: w.db->compactInplace(CompactOptions(), 1); break;
    case 8: w.db->splitLevel(CompactOptions(), 1); break;
    case 9: w.db->mergeLevel(CompactOptions(), 1); break;
    }
    look("maintenance on a read-only handle has an effect");
    if (top) { DB* s = nullptr; sym_assert(w.db->openSnapshot(&s).ok(), "openSnapshot of a read-only handle failed"); w.checkAll(s, top, "a snapshot of a read-only handle"); sym_assert(DB::close(s).ok(), "closing the snapshot failed"); }
    w.close();
    sym_assert(mfs_ops() == ops0, "a read-only handle changed a file");
    sym_cover(2);
    w.c = normal;
    w.open();
    look("the state after a read-only handle was open");
    w.set(1);
    w.reopen();
    w.checkAll("write after a read-only handle was open");
    w.stop();
    sym_cover(3);
}
