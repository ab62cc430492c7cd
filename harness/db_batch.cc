//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C30 quick args=0-11 time=60 cover=1,2,3 -- a prepared database (empty, records in the log, in the tables, in both; args/4: one or many records per log file, explicit sequence numbers), a batch of 1 to 3 writes or removals of two keys; between its application and its becoming visible, one of {read everything, sync, flush, flush beyond the sync, open a snapshot}; then everything is read, possibly after a reopen, and further operations follow
//@ run C30 thorough args=0-11 time=600 cover=1,2,3 -- as quick, two of the operations while the batch is pending
#include "dbx.h"
static World* W;
static std::vector<Ent> before_, after_;
static void all(DB* d, uint64_t upto, const char* msg) {
    World& w = *W;
    w.checkAll(d, upto, msg);
    for (int i = 0; i < w.nk; ++i) {
        Record r; Status s = d->getRecordByKey(w.key(i), r);
        if (w.live(i, upto)) sym_assert(s.ok() && w.recIs(r, i, upto), msg); else sym_assert(!s.ok() || r.isDel(), msg);
        r.free();
        Record n; s = d->getNearestRecordByKey(w.key(i), n);
        if (s.ok()) { bool any = false; for (int k = i; k < w.nk; ++k) any |= w.last(k, upto) && n.seqNum == w.last(k, upto)->seq; sym_assert(any, msg); }
        n.free();
    }
    w.checkIter(d, upto, true, msg);
    w.checkSeqIter(d, upto, msg);
}
static void mid() {
    World& w = *W;
    w.h = before_;
    uint64_t S = w.h.empty() ? 0 : w.h.back().seq;
    int n = sym_tier() ? 2 : 1;
    DB* snap = nullptr;
    for (int i = 0; i < n; ++i) switch (sym_choose(0, 4, "while pending")) {
    case 0: {
        all(w.db, ~0ull, "a read shows a part of a batch that is not complete");
        for (uint64_t q = S + 1; q <= after_.back().seq; ++q) { KV kv; Status s = w.db->getSN(q, kv); sym_assert(!s.ok(), "a read by number shows a part of a batch that is not complete"); kv.free(); }
        break; }
    case 1: w.okOr(w.db->sync(false), {}, "sync failed"); break;
    case 2: w.okOr(w.db->sync(false), {}, "sync failed"); w.okOr(w.db->flushLogs(FlushOptions()), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flushLogs failed");
            all(w.db, ~0ull, "a read after a flush shows a part of a batch that is not complete"); break;
    case 3: w.flushNoSync(); all(w.db, ~0ull, "a read after a flush beyond the sync shows a part of a batch that is not complete"); break;
    case 4: if (!snap) { sym_assert(w.db->openSnapshot(&snap).ok(), "openSnapshot failed"); all(snap, ~0ull, "a snapshot shows a part of a batch that was not complete"); } break;
    }
    if (snap) sym_assert(DB::close(snap).ok(), "closing the snapshot failed");
    sym_cover(1);
    w.h = after_;
}
HARNESS {
    World w; W = &w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.c.maxEntriesInLogFile = a / 4 == 1 ? 1 : 8;
    w.step = a / 4 == 2 ? 3 : 1;
    w.start();
    switch (a % 4) {
    case 0: break;
    case 1: w.set(0); w.set(1); if (sym_choose(0, 1, "synced")) w.sync(); break;
    case 2: w.set(0); w.set(1); w.flush(); break;
    case 3: w.set(0); w.flush(); w.compactL0(); w.set(1); w.del(0); break;
    }
    // The batch
    before_ = w.h;
    int n = sym_choose(1, 3, "records");
    bool bad = w.step > 1 && sym_choose(0, 1, "bad");   // an invalid number in the middle: nothing is applied
    int badAt = bad ? sym_choose(0, n - 1, "where") : -1;
    std::list<Record> b; uint8_t v[3];
    for (int i = 0; i < n; ++i) {
        Record r; int k = sym_choose(0, 1, "key"); bool del = sym_choose(0, 1, "del");
        r.kv.key = w.key(k);
        if (del) r.type = Record::DELETION; else { v[i] = w.freshVal(); r.kv.value = SizedBuf(1, &v[i]); }
        w.seq += w.step;
        if (w.step > 1) { r.seqNum = w.seq; if (i == badAt) { r.seqNum = i ? (sym_choose(0, 1, "kind") ? w.seq - w.step : NOT_INITIALIZED) : (before_.empty() ? 0 : before_.back().seq); } }
        b.push_back(r);
        w.h.push_back({k, del, v[i], 0, w.seq});
    }
    after_ = w.h;
    DebugParams dp; dp.newLogBatchCb = [](const DebugParams::GenericCbParams&) { mid(); };
    DB::setDebugParams(dp); DB::enableDebugCallbacks(true);
    Status s = w.db->setRecordBatch(b);
    DB::enableDebugCallbacks(false);
    if (bad) {
        sym_assert(!s.ok(), "a batch with invalid sequence numbers is accepted");
        w.h = before_; w.seq = w.h.empty() ? 0 : w.h.back().seq;
        sym_cover(2);
    } else { sym_assert(s.ok(), "batch failed"); sym_cover(3); }
    if (!w.h.empty()) { uint64_t mx = 0; sym_assert(w.db->getMaxSeqNum(mx).ok() && mx == w.seq, "maximum sequence number after a batch"); }
    all(w.db, ~0ull, "state after a batch");
    switch (sym_choose(0, 2, "then")) {
    case 0: w.reopen(); break;
    case 1: w.flush(); w.compactL0(); break;
    case 2: w.set(1); w.flush(); w.set(0); break;
    }
    all(w.db, ~0ull, "state some time after a batch");
    w.stop();
}
