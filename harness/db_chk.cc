//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C32 quick args=0-8 time=120 cover=1,2 -- every program of 4 operations out of {write or remove one of two keys, checkpoint, sync, flush, flush up to the latest checkpoint, flush and L0 compaction, close and reopen} after a first checkpoint in a prepared database (args%3: fresh, records in the log, records in the tables; args/3: many or one record per log file, or two L0 partitions); then every listed checkpoint is opened as a snapshot and read
//@ run C32 thorough args=0-8 time=600 cover=1,2 -- as quick, programs of 5 operations
#include "dbx.h"
static void all(World& w, DB* d, uint64_t upto, const char* msg) {
    w.checkAll(d, upto, msg);
    w.checkIter(d, upto, false, msg);
}
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.tagVals = false;
    w.c.maxEntriesInLogFile = a / 3 % 2 == 1 ? 1 : 8;
    if (a >= 6) { w.c.numL0Partitions = 2; w.fixKeys({"ka", "kc"}); }
    w.start();
    switch (a % 3) {
    case 0: w.set(0); break;
    case 1: w.set(0); w.set(1); w.sync(); w.set(0); break;
    case 2: w.set(0); w.set(1); w.flush(); w.compactL0(); w.set(0); break;
    }
    std::set<uint64_t> taken, sure; uint64_t flushed = 0;
    w.db->getLastFlushedSeqNum(flushed); if (flushed == NOT_INITIALIZED) flushed = 0;
    auto chk = [&]() { uint64_t q = 0; sym_assert(w.db->checkpoint(q, false).ok(), "checkpoint failed"); sym_assert(q == w.h.back().seq, "a checkpoint has the number of the last record"); taken.insert(q); if (q > flushed) sure.insert(q); };
    chk();
    for (int i = 0, n = sym_tier() ? 5 : 4; i < n; ++i) switch (sym_choose(0, 8, "op")) {
    case 0: w.set(0); break;
    case 1: w.set(1); break;
    case 2: w.del(0); break;
    case 3: chk(); break;
    case 4: w.sync(); break;
    case 5: w.flush(); flushed = w.h.back().seq; break;
    case 6: w.flush(); w.compactL0(); sure.clear(); flushed = w.h.back().seq; break;
    case 7: w.reopen(); break;
    case 8: { uint64_t q = *taken.rbegin(); w.sync(); w.okOr(w.db->flushLogs(FlushOptions(), q), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flush up to a checkpoint failed"); if (q > flushed) flushed = q; break; }
    }
    std::list<uint64_t> l;
    sym_assert(w.db->getCheckpoints(l).ok(), "getCheckpoints failed");
    uint64_t prev = 0;
    for (uint64_t c : l) {
        sym_assert(c > prev, "checkpoints are listed in order, each once"); prev = c;
        sym_assert(taken.count(c), "a listed checkpoint was never taken");
        DB* s = nullptr;
        sym_assert(w.db->openSnapshot(&s, c).ok() && s, "a listed checkpoint cannot be opened");
        all(w, s, c, "a checkpoint does not show the state at its number");
        sym_assert(DB::close(s).ok(), "closing the snapshot failed");
        sym_cover(1);
        sure.erase(c);
    }
    sym_assert(sure.empty(), "a checkpoint that no compaction has touched is not listed");
    DB* s = nullptr;
    sym_assert(w.db->openSnapshot(&s, w.h.back().seq + 1) == Status::INVALID_CHECKPOINT, "a checkpoint that does not exist is opened");
    all(w, w.db, ~0ull, "state after checkpoints");
    sym_cover(2);
    w.stop();
}
