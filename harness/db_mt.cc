//@ src ALL
//@ models mfs fdb_model
//@ flags -fno-access-control
//@ threads
//@ run C41 quick args=1,2,5,7-11,14,17-21 time=300 cover=1 -- two threads, one operation each, on 2 keys (a symbolic byte each; args 20, 21: 4 fixed keys) held by the log section, level 0 or level 1: write, removal plus write, sync and flush, L0 compaction, sync, checkpoint against each of these and each read (points, key iteration, opening and reading a snapshot, nearest search, sequence iteration); args 18-21: in-place compaction, moving to the next level, split, merge of level 1 against each of flush, L0 compaction, in-place compaction also followed by a removal that is flushed and compacted, and each read; all interleavings with at most 1 preemption at any atomic operation, lock or access to shared memory of Jungle; afterwards every read, and again after close and reopen
//@ run C41 thorough args=0-21 time=1800 cover=1 -- two threads, one operation each, on 2 keys (a symbolic byte each; args 20, 21: 4 fixed keys) held by the log section, level 0 or level 1: write, removal plus write, sync and flush, L0 compaction, sync, checkpoint against each of these and each read (points, key iteration, opening and reading a snapshot, nearest search, sequence iteration); args 18-21: in-place compaction, moving to the next level, split, merge of level 1 against each of flush, L0 compaction, in-place compaction also followed by a removal that is flushed and compacted, and each read; as many of the interleavings with at most 2 preemptions as the time allows, every one with at most 1 is in the quick run at any atomic operation, lock or access to shared memory of Jungle; afterwards every read, and again after close and reopen
//@ assume interleavings are sequentially consistent
#include "dbx.h"
extern "C" void inline_threads_reset() {}
enum Op { SET, DEL, FLUSH, COMPACT, SYNC, CHK, INPLACE, LEVEL, SPLIT, MERGE, SINK, GET, ITER, SNAP, NEAR, SEQ, NOP };
static World* W;
static size_t begun, done_;                 // writes of the history that started / returned (one writer at a time per thread)
struct Th { Op op; bool ok = true; };
static size_t doneUpto[4];                  // per key: number of history entries that must be visible
static uint8_t sv;                           // symbolic: second byte of every value
static void wr(int k, bool del) {
    W->h.push_back({k, del, (uint8_t)(W->h.size() + 1), sv, 0});
    size_t me = W->h.size(); uint8_t v[2] = {(uint8_t)me, sv};
    Status s = del ? W->db->del(W->key(k)) : W->db->set(KV(W->key(k), SizedBuf(2, v)));
    sym_assert(s.ok(), "a write during other work is refused");
    if (doneUpto[k] < me) doneUpto[k] = me;
}
// 0: no record, otherwise the number of the write of k that gave this value
static bool seen(int k, bool found, const SizedBuf& v, size_t from, bool exact = false) {
    for (size_t i = exact ? from : W->h.size(); i >= from; --i) {
        if (!i) { if (!found) return true; break; }
        const Ent& e = W->h[i - 1]; if (e.key != k) continue;
        if (e.del ? !found : found && v.size == 2 && ((uint8_t*)v.data)[0] == e.val && ((uint8_t*)v.data)[1] == e.meta) return true;
    }
    return false;
}
static void chk(int k, Status s, const SizedBuf& v, size_t from, const char* m) { sym_assert((s.ok() || s == Status::KEY_NOT_FOUND) && seen(k, s.ok(), v, from), m); }
static int keyOf(const SizedBuf& b) { for (int i = 0; i < W->nk; ++i) if (b.size == W->kl[i] && !memcmp(b.data, W->kb[i], b.size)) return i; return -1; }
static void walk(DB* d, size_t* from, bool sn, const char* m) {
    Iterator it; Status s = sn ? it.initSN(d) : it.init(d);
    sym_assert(s.ok(), m);
    bool got[4] = {}; int prev = -1; uint64_t ps = 0;
    for (;;) {
        Record r; if (!it.get(r).ok()) break;
        int k = keyOf(r.kv.key); sym_assert(k >= 0, m);
        if (!sn) { sym_assert(k > prev && !r.isDel(), m); prev = k; sym_assert(seen(k, true, r.kv.value, from[k]), m); got[k] = true; }
        else { sym_assert(r.seqNum > ps, m); ps = r.seqNum; if (seen(k, !r.isDel(), r.kv.value, from[k])) got[k] = true; }
        r.free();
        if (!it.next().ok()) break;
    }
    it.close();
    SizedBuf none;
    for (int k = 0; k < W->nk; ++k) if (!got[k]) sym_assert(seen(k, false, none, from[k]), m);
}
static void down(Status s) { sym_assert(s.ok() || s == Status::OPERATION_IN_PROGRESS || s == Status::TABLE_NOT_FOUND || s == Status::INVALID_LEVEL, "compaction during other work failed"); }
static void act(Op op) {
    DB* d = W->db;
    size_t from[4]; memcpy(from, doneUpto, sizeof from);
    switch (op) {
    case SET: wr(0, false); break;
    case DEL: wr(0, true); wr(1, false); break;
    case FLUSH: W->sync(); { Status s = d->flushLogs(FlushOptions()); sym_assert(s.ok() || s == Status::ALREADY_FLUSHED || s == Status::LOG_NOT_SYNCED || s == Status::OPERATION_IN_PROGRESS, "flush during other work failed"); } break;
    case COMPACT: { Status s = d->compactL0(CompactOptions(), 0); sym_assert(s.ok() || s == Status::OPERATION_IN_PROGRESS, "compaction during other work failed"); } break;
    case SYNC: { Status s = d->sync(true); sym_assert(s.ok() || s == Status::OPERATION_IN_PROGRESS, "sync during other work failed"); } break;
    case CHK: { uint64_t n = 0; Status s = d->checkpoint(n); sym_assert(s.ok(), "checkpoint during other work failed"); } break;
    case INPLACE: down(d->compactInplace(CompactOptions(), 1)); break;
    case LEVEL: down(d->compactLevel(CompactOptions(), 1)); break;
    case SPLIT: down(d->splitLevel(CompactOptions(), 1)); break;
    case MERGE: down(d->mergeLevel(CompactOptions(), 1)); break;
    case SINK: down(d->compactInplace(CompactOptions(), 1)); wr(0, true); act(FLUSH); act(COMPACT); break;
    case GET: for (int k = 0; k < W->nk; ++k) { SizedBuf o; size_t f = doneUpto[k]; Status s = d->get(W->key(k), o); chk(k, s, o, f, "a read during other work returns a value that is not current"); o.free(); } break;
    case ITER: walk(d, from, false, "iterating during other work misses a record or returns another"); break;
    case SEQ: walk(d, from, true, "iterating by sequence number during other work misses a record or returns another"); break;
    case SNAP: {
        DB* sn = nullptr; Status s = d->openSnapshot(&sn); sym_assert(s.ok() && sn, "a snapshot cannot be opened during other work");
        for (int t = 0; t < 2; ++t) { walk(sn, from, false, "a snapshot opened during other work is not a state of the database"); SizedBuf o; Status q = sn->get(W->key(t), o); chk(t, q, o, from[t], "a snapshot opened during other work reads a value that is not current"); o.free(); }
        DB::close(sn); break; }
    case NEAR: {
        Record r; Status s = d->getNearestRecordByKey(W->key(0), r, SearchOptions::GREATER_OR_EQUAL);
        if (s.ok()) {   // a tombstone counts as a record here
            int k = keyOf(r.kv.key); sym_assert(k >= 0 && seen(k, !r.isDel(), r.kv.value, from[k]), "a nearest search during other work returns something else");
            if (k == 1) sym_assert(!from[0], "a nearest search during other work misses a key");
            r.free();
        } else sym_assert(!from[0] && !from[1], "a nearest search during other work finds nothing");
        break; }
    case NOP: break;
    }
}
static Op opB;
static void worker(void*) { act(opB); }
HARNESS {
    World w; W = &w;
    unsigned a = sym_arg(), layout = a >= 18 ? 2 : a % 3;
    if (a < 20) w.symKeys(2); else { w.fixKeys({"pa", "pb", "pc", "pd"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; }; }
    sym_bytes(&sv, 1, "value");
    w.c.maxEntriesInLogFile = 2; if (a >= 18) { w.c.minNumTablesPerLevel = 1; w.c.minFileSizeToCompact = 0; }
    w.start();
    if (layout) { for (int k = 0; k < w.nk; ++k) wr(k, false); w.flush(); }
    if (layout == 2) { w.compactL0(); wr(1, true); w.flush(); }
    if (layout != 1) wr(0, false);
    if (layout) wr(1, layout == 1);
    Op opA = (Op)(a / 3);
    if (a >= 18) {
        opA = (Op)(INPLACE + (a - 18)); static const Op bs[] = {FLUSH, COMPACT, INPLACE, SINK, GET, ITER, SNAP, NEAR, SEQ};
        if (opA == MERGE) sym_assert(w.db->splitLevel(CompactOptions(), 1).ok(), "splitLevel failed");
        opB = bs[sym_choose(0, 8, "op")];
    } else { int b = sym_choose(opA, SEQ - 5, "op"); opB = b <= CHK ? (Op)b : (Op)(b + 5); }
    sym_preempt_budget(sym_tier() ? 2 : 1);
    int id = sym_thread_create(worker, (void*)1);
    act(opA);
    sym_thread_join(id);
    sym_preempt_budget(0);
    // Concurrent writes of one key: the order is that of the sequence numbers; either is right.
    for (int t = 0; t < 2; ++t) {
        size_t from[4]; memcpy(from, doneUpto, sizeof from);
        if (opB <= DEL && opA <= DEL) from[0] = from[1] = 0;
        int k;
        for (k = 0; k < w.nk; ++k) { SizedBuf o; Status s = w.db->get(w.key(k), o); chk(k, s, o, from[k], t ? "a record is lost or old after reopening" : "a record is lost or old after concurrent work"); o.free(); }
        walk(w.db, from, false, "iteration after concurrent work misses a record or returns another");
        if (opB >= GET) break;
        if (!t) w.reopen();
    }
    w.stop();
    sym_cover(1);
}
