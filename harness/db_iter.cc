//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C22 quick args=0-7,20-23 time=60 cover=1,2,3 -- every distribution of 2 symbolic keys (args 4-7: 3; each untouched, written or deleted) over two of the places {L1 table, L0 table, log file, memtable}, then one seek with a symbolic key in either direction (or the start, or the end), a walk to the end in one direction and all the way back in the other; args 20-23: the same over a range with symbolic inclusive bounds
//@ run C22 thorough args=0-7,10-13,20-27 time=800 cover=1,2,3 -- as quick; args 10-13 distribute over three places, args 24-27: 3 keys with a range
#include "dbx.h"
static World* W;
static int K[MAXK], NL;   // live keys in order
static void at(Iterator& it, int p, const char* msg) {
    Record r; Status s = it.get(r);
    sym_assert(s.ok() && W->recIs(r, K[p], ~0ull), msg);
    r.free();
}
// Walk from record p to the end of that direction. past: -1 / 1: the cursor may also be before the first / after the last record
// (after a move that failed, or a seek that found nothing: which of the two is not specified).
static void walk(Iterator& it, int& p, bool fwd, int past) {
    if (past) {
        Record r; Status s = it.get(r);
        if (!s.ok()) {
            s = fwd ? it.next() : it.prev();
            if ((past > 0) == fwd) { sym_assert(!s.ok(), "a move further out succeeds"); return; }
            sym_assert(s.ok(), "no way back from the end");
        }
        r.free();
    }
    for (;;) {
        at(it, p, past ? "way back: iterator does not stand on the expected record" : "iterator does not stand on the expected record");
        Status s = fwd ? it.next() : it.prev();
        bool end = fwd ? p == NL - 1 : p == 0;
        if (end) sym_assert(!s.ok(), "iterator moves past the end");
        else sym_assert(s.ok(), "iterator ends too early");
        if (end) return;
        p += fwd ? 1 : -1;
    }
}
HARNESS {
    World w; W = &w;
    uint64_t a = sym_arg();
    bool range = a >= 20;
    if (range) a -= 20;
    w.symKeys(a < 4 ? 2 : 3);
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    int phases = a >= 10 ? 3 : 2;
    w.start();
    w.phase("first", 0, w.nk == 3 ? 1 : 2);
    if (a & 2) { w.flush(); w.compactL0(); } else if (a == 0 || a == 4) w.sync(); else w.flush();
    if (phases == 3) { w.phase("second"); w.flush(); }
    w.phase("last");
    uint8_t lo[2] = {'p', 0}, hi[2] = {'p', 255};
    if (range) { sym_bytes(lo + 1, 1, "lo"); sym_bytes(hi + 1, 1, "hi"); sym_assume(lo[1] <= hi[1]); }
    NL = 0;
    for (int i = 0; i < w.nk; ++i) if (w.live(i, ~0ull) && w.kb[i][1] >= lo[1] && w.kb[i][1] <= hi[1]) K[NL++] = i;
    Iterator it;
    sym_assert((range ? it.init(w.db, SizedBuf(2, lo), SizedBuf(2, hi)) : it.init(w.db)).ok(), "iterator init failed");
    Record none;
    if (!NL) { sym_assert(!it.get(none).ok(), "iterator over an empty database returns a record"); sym_cover(2); }
    else {
        int p = 0, past = 0;
        uint8_t q[2] = {'p', 0};
        uint64_t how = sym_choose(0, 4, "how");
        switch (how) {
        case 0: break;
        case 1: sym_assert(it.gotoEnd().ok(), "gotoEnd failed"); p = NL - 1; break;
        case 2: sym_assert(it.gotoEnd().ok() && it.gotoBegin().ok(), "gotoBegin failed"); break;
        default: {
            sym_bytes(q + 1, 1, "q"); sym_assume(q[1] >= lo[1] && q[1] <= hi[1]);
            sym_assert(it.seek(SizedBuf(2, q), how == 3 ? Iterator::GREATER : Iterator::SMALLER).ok(), "seek failed");
            if (how == 3) { p = NL - 1; past = 1; for (int i = NL - 1; i >= 0; --i) if (w.kb[K[i]][1] >= q[1]) { p = i; past = 0; } }
            else { p = 0; past = -1; for (int i = 0; i < NL; ++i) if (w.kb[K[i]][1] <= q[1]) { p = i; past = 0; } }
            sym_cover(3);
            break; }
        }
        bool fwd = sym_choose(0, 1, "fwd") == 0;
        walk(it, p, fwd, past);
        walk(it, p, !fwd, fwd ? 1 : -1);
    }
    it.close();
    w.stop();
    sym_cover(1);
}
