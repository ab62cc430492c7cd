//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C23 quick args=0-11 time=60 cover=1,2,3,4 -- every sequence of 4 operations (args 4-11: 3; write/delete/overwrite of two keys, flush, flush+compaction) ending in memory, log or tables (args 0-3: from an empty database; 4-7: from one with a flushed prefix; 8-11: explicit sequence numbers with gaps; odd args: one record per log file), then by-number reads of every number, and a sequence iterator that is unbounded, bounded by two symbolic numbers, or positioned by a seek to a symbolic number in either direction, walked both ways
//@ run C23 thorough args=0-11 time=800 cover=1,2,3,4 -- as quick with one more operation
#include "dbx.h"
static World* W;
static uint64_t L[32]; static int NLs;
static Ent* ent(uint64_t seq) { for (auto& e : W->h) if (e.seq == seq) return &e; return nullptr; }
static bool recOk(Record& r, const Ent* e) {
    if (r.seqNum != e->seq || r.kv.key.size != W->kl[e->key] || memcmp(r.kv.key.data, W->kb[e->key], r.kv.key.size)) return false;
    if (e->del) return !r.isIns();
    return r.isIns() && r.kv.value.size == 1 && *(uint8_t*)r.kv.value.data == e->val;
}
static void at(Iterator& it, int i) {
    Record r; Status s = it.get(r);
    sym_assert(s.ok(), "iterator has no record");
    sym_assert(r.seqNum == L[i], "iterator stands on the wrong sequence number");
    r.free();
}
HARNESS {
    World w; W = &w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    if (a >= 8) w.step = 2;
    w.start();
    if (a >= 4 && a < 8) { w.set(0); w.set(1); w.flush(); if (a & 2) w.compactL0(); w.set(0); w.sync(); }
    else if (a & 2) { w.set(0); w.set(0); w.flush(); }
    int n = (a < 4 ? 4 : 3) + sym_tier();
    for (int i = 0; i < n; ++i) {
        uint64_t op = sym_choose(0, 5, "op");
        if (op == 0) w.set(0); else if (op == 1) w.del(0); else if (op == 2) w.set(1);
        else if (op == 3) w.flush(); else if (op == 4) { w.flush(); w.compactL0(); } else break;
    }
    uint64_t fl = 0, mx = 0;
    Status s = w.db->getMaxSeqNum(mx);
    sym_assert(w.seq ? s.ok() && mx == w.seq : true, "largest sequence number is wrong");
    s = w.db->getLastFlushedSeqNum(fl);
    if (!s.ok()) fl = 0;
    sym_assert(fl <= w.seq, "flushed sequence number beyond the last write");
    // By number.
    for (uint64_t q = 1; q <= w.seq; ++q) {
        Record r; KV kv; s = w.db->getRecord(q, r); Status s2 = w.db->getSN(q, kv);
        const Ent* e = ent(q);
        if (!e) { sym_assert(!s.ok() && !s2.ok(), "record with a number that was not given"); continue; }
        if (s.ok()) { sym_assert(recOk(r, e), "record by number is not the one written"); sym_assert(e->del ? s2 == Status::NOT_KV_PAIR : s2.ok() && *(uint8_t*)kv.value.data == e->val, "pair by number is not the one written"); }
        else sym_assert(q <= fl && !s2.ok(), "record by number missing in the log section");
        r.free(); kv.free();
    }
    { Record r; sym_assert(!w.db->getRecord(w.seq + 1, r).ok(), "record beyond the last number"); }
    // By iteration.
    uint64_t lo = 0, hi = ~0ull, how = sym_choose(0, 3, "how");
    if (how == 1) { lo = sym_range(0, 8, "lo"); hi = sym_range(0, 8, "hi"); sym_assume(lo <= hi); }
    Iterator it;
    s = how == 1 ? it.initSN(w.db, lo, hi) : it.initSN(w.db);
    sym_assert(s.ok(), "iterator init failed");
    NLs = 0; uint64_t prev = 0;
    for (int i = 0; i < 20; ++i) {
        Record r; s = it.get(r);
        if (!s.ok()) { sym_assert(i == 0, "iterator lost its record"); break; }
        const Ent* e = ent(r.seqNum);
        sym_assert(e != nullptr && recOk(r, e), "iterator returns a record that was never written");
        sym_assert(r.seqNum > prev, "sequence numbers do not ascend");
        sym_assert(r.seqNum >= lo && r.seqNum <= hi, "record outside the bounds");
        prev = L[NLs++] = r.seqNum;
        r.free();
        if (!it.next().ok()) break;
    }
    for (auto& e : w.h) {
        bool must = e.seq > fl;
        if (!must && !e.del) { must = true; for (auto& f : w.h) if (f.key == e.key && f.seq > e.seq && f.seq <= fl) must = false; }
        if (!must || e.seq < lo || e.seq > hi) continue;
        bool in = false; for (int i = 0; i < NLs; ++i) in |= L[i] == e.seq;
        sym_assert(in, "iterator misses a record");
    }
    if (NLs) {
        sym_cover(1);
        for (int i = NLs - 1; i >= 0; --i) { at(it, i); sym_assert(it.prev().ok() == (i > 0), "way back has another length"); }
        if (how == 2) { sym_assert(it.gotoEnd().ok(), "gotoEnd"); at(it, NLs - 1); sym_assert(it.gotoBegin().ok(), "gotoBegin"); at(it, 0); sym_cover(2); }
        if (how == 3) {
            uint64_t q = sym_range(0, 8, "q"); bool gr = sym_choose(0, 1, "smaller") == 0;
            sym_assert(it.seekSN(q, gr ? Iterator::GREATER : Iterator::SMALLER).ok(), "seek failed");
            int p = gr ? NLs - 1 : 0;
            if (gr) { for (int i = NLs - 1; i >= 0; --i) if (L[i] >= q) p = i; sym_cover(3); }
            else { for (int i = 0; i < NLs; ++i) if (L[i] <= q) p = i; sym_cover(4); }
            at(it, p);
            for (int i = p + 1; i < NLs; ++i) { sym_assert(it.next().ok(), "seek, forward: ends too early"); at(it, i); }
            sym_assert(!it.next().ok(), "moves past the end");
            for (int i = NLs - 2; i >= 0; --i) { sym_assert(it.prev().ok(), "seek, back: ends too early"); at(it, i); }
        }
    }
    it.close();
    w.stop();
}
