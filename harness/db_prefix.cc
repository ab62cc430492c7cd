//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C29 quick args=0-7,20-23,30-31 time=60 cover=1,2 -- every distribution of 3 keys (untouched, written or deleted; args 0-3 two symbolic keys with a common hashed byte, args 4-7 three fixed keys without custom hash) over two of the places {L1 table, L0 table, log file, memtable}, then a prefix search for one of the prefixes with a callback stopping after any number of records; args 20-23: the same on a snapshot opened before the last phase, after which the log is left alone, flushed up to some number, or flushed and compacted; 30-31: after flushing the log only up to some sequence number
//@ run C29 thorough args=0-7,10-17,20-27,30-35 time=800 cover=1,2 -- as quick; args 10-17, distribution over three places
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool part = a >= 30, snap = a >= 20 && !part, three = a >= 10 && a < 20;
    a = part ? a - 30 : a % 10;
    uint8_t q[3] = {'p', 0, 0}; size_t ql;
    if (a < 4) {
        w.symKeys(2, 2);
        for (int i = 0; i < 2; ++i) sym_assume(w.kb[i][1] >= 'a' && w.kb[i][1] <= 'b' && w.kb[i][2] >= 'a' && w.kb[i][2] <= 'b');
        ql = sym_choose(1, 3, "length"); q[1] = 'a'; q[2] = 'b';
    } else {
        w.fixKeys({"pa", "pb", "qa"});
        ql = sym_choose(1, 2, "length"); q[0] = 'p' + sym_choose(0, 1, "q"); q[1] = 'a';
    }
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    w.start();
    w.phase("first", 0, w.nk == 3 ? 1 : 2);
    if (a & 2) { w.flush(); w.compactL0(); } else if (a == 0 || a == 4) w.sync(); else w.flush();
    if (three) { w.phase("second"); w.flush(); }
    DB* d = w.db; uint64_t S = ~0ull;
    if (snap) { S = w.seq; sym_assert(w.db->openSnapshot(&d).ok(), "openSnapshot failed"); }
    w.phase("last");
    bool sub = false;
    if (snap) switch (sym_choose(0, 2, "flush")) { case 1: w.flush(); w.compactL0(); break; case 2: sub = true; }
    if ((part || sub) && w.seq) { w.sync(); uint64_t upto = sym_choose(1, w.seq, "upto"); w.okOr(w.db->flushLogs(FlushOptions(), upto), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flushLogs failed"); }
    size_t stop = sym_choose(1, 3, "stop"), n = 0; if (stop == 3) stop = ~0ull;
    bool seen[MAXK] = {};
    Status s = d->getRecordsByPrefix(SizedBuf(ql, q), [&](const SearchCbParams& p) -> SearchCbDecision {
        sym_assert(n < stop, "prefix search goes on after it was told to stop");
        const Record& r = p.rec;
        int got = -1; const Ent* e = nullptr;
        for (int i = 0; i < w.nk; ++i) if (r.kv.key.size == w.kl[i] && memcmp(r.kv.key.data, w.kb[i], w.kl[i]) == 0) got = i;
        sym_assert(got >= 0 && r.kv.key.size >= ql && memcmp(w.kb[got], q, ql) == 0, "prefix search returns a key without the prefix");
        for (Ent& x : w.h) if (x.key == got && x.seq == r.seqNum && x.seq <= S) e = &x;
        sym_assert(e && e->del == r.isDel() && (e->del || (r.kv.value.size == 1 && *(uint8_t*)r.kv.value.data == e->val)), "prefix search returns a record that was not written");
        if (!seen[got]) sym_assert(e == w.last(got, S), "the first record reported for a key is not its latest one");
        seen[got] = true;
        return ++n < stop ? SearchCbDecision::NEXT : SearchCbDecision::STOP;
    });
    sym_assert(s.ok() || s == Status::KEY_NOT_FOUND, "prefix search fails");
    sym_assert(s.ok() == (n > 0), "prefix search: status does not tell whether there was a record");
    if (n < stop) for (int i = 0; i < w.nk; ++i) if (w.live(i, S) && w.kl[i] >= ql && memcmp(w.kb[i], q, ql) == 0) sym_assert(seen[i], "prefix search misses a live key");
    if (n) sym_cover(1); else sym_cover(2);
    if (snap) sym_assert(DB::close(d).ok(), "closing the snapshot failed");
    w.stop();
}
