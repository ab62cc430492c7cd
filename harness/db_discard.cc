//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C31 quick args=0-11 time=60 cover=1,2 -- a prepared database (empty, records in the log, in the tables, in both; args/4: many or one record per log file, or allowOverwriteSeqNum and the numbers reused), up to 3 unsynced writes or removals of two keys, discardDirty at any of their numbers; everything is read (live, from a snapshot), then further writes, a sync, a flush and compaction or a reopen, and everything is read again
//@ run C31 thorough args=0-11 time=600 cover=1,2 -- as quick, 4 unsynced operations and two operations afterwards
#include "dbx.h"
static void all(World& w, DB* d, uint64_t upto, const char* msg) {
    w.checkAll(d, upto, msg);
    for (int i = 0; i < w.nk; ++i) {
        Record r; Status s = d->getRecordByKey(w.key(i), r);
        if (w.live(i, upto)) sym_assert(s.ok() && w.recIs(r, i, upto), msg); else sym_assert(!s.ok() || r.isDel(), msg);
        r.free();
    }
    w.checkIter(d, upto, true, msg);
    w.checkSeqIter(d, upto, msg);
}
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.tagVals = false;
    w.c.maxEntriesInLogFile = a / 4 == 1 ? 1 : 8;
    bool reuse = w.c.allowOverwriteSeqNum = a / 4 == 2;
    w.start();
    switch (a % 4) {
    case 0: break;
    case 1: w.set(0); w.set(1); w.sync(); break;
    case 2: w.set(0); w.set(1); w.flush(); break;
    case 3: w.set(0); w.flush(); w.compactL0(); w.set(1); w.del(0); w.sync(); break;
    }
    size_t S = w.h.size();
    int n = sym_choose(1, sym_tier() ? 4 : 3, "dirty");
    for (int i = 0; i < n; ++i) { int k = sym_choose(0, 1, "key"); if (sym_choose(0, 1, "del")) w.del(k); else w.set(k); }
    uint64_t from = S + sym_choose(1, n, "from");
    sym_assert(w.db->discardDirty(from).ok(), "discardDirty failed");
    while (!w.h.empty() && w.h.back().seq >= from) w.h.pop_back();
    all(w, w.db, ~0ull, "state after discarding unsynced records");
    for (uint64_t q = from; q <= S + n; ++q) { KV kv; sym_assert(!w.db->getSN(q, kv).ok(), "a discarded record is read by its number"); kv.free(); }
    sym_cover(1);
    for (int i = 0, m = sym_tier() ? 2 : 1; i < m; ++i) switch (sym_choose(0, 5, "then")) {
    case 0: w.sync(); break;
    case 1: w.flush(); w.compactL0(); break;
    case 2: w.reopen(); break;
    case 3: { DB* s = nullptr; sym_assert(w.db->openSnapshot(&s).ok(), "openSnapshot failed"); all(w, s, ~0ull, "a snapshot after discarding unsynced records"); sym_assert(DB::close(s).ok(), "close"); break; }
    case 4: {   // new writes get numbers after everything before
        uint64_t mx = 0; sym_assert(w.db->getMaxSeqNum(mx).ok() || w.h.empty(), "getMaxSeqNum");
        int k = sym_choose(0, 1, "key2"); uint8_t v = 77; KV kv(w.key(k), SizedBuf(1, &v));
        uint64_t base = reuse ? from - 1 : S + n;
        Status s = w.db->setSN(base + 1, kv); sym_assert(s.ok(), "set failed");
        w.h.push_back({k, false, v, 0, w.seq = base + 1});
        all(w, w.db, ~0ull, "state after a write after discarding");
        switch (sym_choose(0, 2, "after")) { case 0: w.sync(); break; case 1: w.flush(); break; case 2: w.reopen(); break; }
        sym_cover(2);
        break; }
    case 5: w.flushNoSync(); break;
    }
    all(w, w.db, ~0ull, "state some time after discarding unsynced records");
    if (sym_choose(0, 1, "reopen")) { w.reopen(); all(w, w.db, ~0ull, "state after discarding unsynced records and a reopen"); }
    w.stop();
}
