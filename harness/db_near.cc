//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C28 quick args=0-7,20-23,30-31 time=60 cover=1,2,3 -- every distribution of 2 symbolic keys (args 4-7: 3; each untouched, written or deleted) over two of the places {L1 table, L0 table, log file, memtable}, then one nearest search with a symbolic key and each of the four options, exact key included; args 20-23: the same on a snapshot opened before the last phase; args 30-31: with the log flushed only up to some sequence number after the last phase
//@ run C28 thorough args=0-7,10-13,20-27,30-35 time=800 cover=1,2,3 -- as quick; args 10-13, distribution over three places; 24-27: 3 keys and a snapshot
#include "dbx.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool part = a >= 30, snap = a >= 20 && !part;
    if (part) a = a < 32 ? a - 30 : a - 28; if (snap) a -= 20;
    w.symKeys(a < 4 ? 2 : 3);
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    int phases = a >= 10 ? 3 : 2;
    w.start();
    w.phase("first", 0, w.nk == 3 ? 1 : 2);
    if (a & 2) { w.flush(); w.compactL0(); } else if (a == 0 || a == 4) w.sync(); else w.flush();
    if (phases == 3) { w.phase("second"); w.flush(); }
    DB* d = w.db; uint64_t S = ~0ull;
    if (snap) { S = w.seq; sym_assert(w.db->openSnapshot(&d).ok(), "openSnapshot failed"); }
    w.phase("last");
    if (snap && sym_choose(0, 1, "flush")) { w.flush(); w.compactL0(); }
    if (part && w.seq) { w.sync(); uint64_t upto = sym_choose(1, w.seq, "upto"); w.okOr(w.db->flushLogs(FlushOptions(), upto), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flushLogs failed"); }
    uint8_t q[2] = {'p', 0};
    sym_bytes(q + 1, 1, "q");
    static const SearchOptions::Options opts[] = {SearchOptions::GREATER_OR_EQUAL, SearchOptions::GREATER, SearchOptions::SMALLER_OR_EQUAL, SearchOptions::SMALLER};
    int o = sym_choose(0, 3, "option");
    auto in = [&](int i) { uint8_t x = w.kb[i][1]; return o == 0 ? x >= q[1] : o == 1 ? x > q[1] : o == 2 ? x <= q[1] : x < q[1]; };
    int best = -1;                // nearest live key in the range
    if (o < 2) { for (int i = w.nk - 1; i >= 0; --i) if (w.live(i, S) && in(i)) best = i; }
    else for (int i = 0; i < w.nk; ++i) if (w.live(i, S) && in(i)) best = i;
    Record r; Status s = d->getNearestRecordByKey(SizedBuf(2, q), r, SearchOptions(opts[o]));
    if (s.ok()) {
        int got = -1;
        for (int i = 0; i < w.nk; ++i) if (r.kv.key.size == 2 && memcmp(r.kv.key.data, w.kb[i], 2) == 0) got = i;
        sym_assert(got >= 0 && w.last(got, S), "nearest search returns a key that does not exist");
        sym_assert(in(got), "nearest search returns a key on the wrong side");
        const Ent* e = w.last(got, S);
        if (e->del) { sym_assert(r.isDel() && r.seqNum == e->seq, "nearest search returns an old version of a removed key"); sym_cover(3); }
        else { sym_assert(!r.isDel() && w.recIs(r, got, S), "nearest search does not return the latest version of the key"); sym_cover(2); }
        if (best >= 0) sym_assert(o < 2 ? got <= best : got >= best, "nearest search misses a nearer live key");
    } else {
        sym_assert(s == Status::KEY_NOT_FOUND, "nearest search fails");
        sym_assert(best < 0, "nearest search misses a live key");
        sym_cover(1);
    }
    r.free();
    if (snap) sym_assert(DB::close(d).ok(), "closing the snapshot failed");
    w.stop();
}
