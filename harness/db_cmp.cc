//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C33 quick args=0-3,10-11 time=90 cover=1,2,3 -- a database with the reverse byte order as custom comparison; every distribution of 2 symbolic keys (untouched, written or deleted) over {L1 table, L0 table or log file, memtable}; point reads, a full walk forwards and backwards, a seek to a symbolic key in either direction, a range with symbolic bounds, and a nearest search with a symbolic key and each option; args 10-11: a comparison that only looks at the first byte of the key's tail (two different keys are equal)
//@ run C33 thorough args=0-7,10-11 time=800 cover=1,2,3 -- as quick; args 4-7: 3 keys
#include "dbx.h"
static int rev(void* a, size_t la, void* b, size_t lb, void*) {
    int c = memcmp(b, a, std::min(la, lb));
    return c ? c : (lb < la ? -1 : lb > la);
}
// Only the first two bytes count.
static int two(void* a, size_t la, void* b, size_t lb, void*) { return memcmp(a, b, std::min<size_t>(2, std::min(la, lb))); }
HARNESS {
    World w;
    uint64_t a = sym_arg();
    if (a >= 10) {   // "paX" and "paY" are one key
        w.c.cmpFunc = two; w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 2; };
        w.tagVals = true; w.fixKeys({"pa1", "pb1"});
        w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
        w.start();
        auto put = [&](int k) {   // key k in one of its spellings
            w.kb[k][2] = '1' + sym_choose(0, 1, "spelling");
            if (sym_choose(0, 2, "del") == 0) w.del(k); else w.set(k);
        };
        put(0); put(1);
        switch (sym_choose(0, 2, "where")) { case 0: w.sync(); break; case 1: w.flush(); break; case 2: w.flush(); w.compactL0(); break; }
        put(sym_choose(0, 1, "k"));
        if (sym_choose(0, 1, "flush")) w.flush();
        if (sym_choose(0, 1, "reopen")) w.reopen();
        for (int k = 0; k < 2; ++k) for (int sp = 0; sp < 2; ++sp) { w.kb[k][2] = '1' + sp; w.checkGet(w.db, k, ~0ull, "keys that compare equal are one key"); }
        Iterator it; sym_assert(it.init(w.db).ok(), "iterator init failed");
        int n = 0, want = w.live(0, ~0ull) + w.live(1, ~0ull);
        for (;;) { Record r; if (!it.get(r).ok()) break; n++; r.free(); if (!it.next().ok()) break; }
        sym_assert(n == want, "keys that compare equal are iterated once");
        it.close();
        sym_cover(1); sym_cover(2); sym_cover(3);
        w.stop();
        return;
    }
    w.c.cmpFunc = rev;
    w.symKeys(a < 4 ? 2 : 3);
    for (int i = 0; i < w.nk / 2; ++i) std::swap(w.kb[i][1], w.kb[w.nk - 1 - i][1]);   // order of the comparison
    w.c.maxEntriesInLogFile = (a & 1) ? 1 : 8;
    w.start();
    w.phase("first", 0, w.nk == 3 ? 1 : 2);
    if (a & 2) { w.flush(); w.compactL0(); } else if (a == 0 || a == 4) w.sync(); else w.flush();
    w.phase("last");
    uint8_t q[2] = {'p', 0}, lo[2] = {'p', 255}, hi[2] = {'p', 0};
    switch (sym_choose(0, 3, "read")) {
    case 0:
        w.checkAll("get with a custom comparison");
        w.checkIter(w.db, ~0ull, true, "walk with a custom comparison");
        w.checkSeek(w.db, ~0ull, "seek with a custom comparison");
        sym_cover(1);
        break;
    case 1: {   // nearest
        sym_bytes(q + 1, 1, "q");
        static const SearchOptions::Options opts[] = {SearchOptions::GREATER_OR_EQUAL, SearchOptions::GREATER, SearchOptions::SMALLER_OR_EQUAL, SearchOptions::SMALLER};
        int o = sym_choose(0, 3, "option");
        auto in = [&](int i) { uint8_t x = w.kb[i][1]; return o == 0 ? x <= q[1] : o == 1 ? x < q[1] : o == 2 ? x >= q[1] : x > q[1]; };
        int best = -1;
        if (o < 2) { for (int i = w.nk - 1; i >= 0; --i) if (w.live(i, ~0ull) && in(i)) best = i; }
        else for (int i = 0; i < w.nk; ++i) if (w.live(i, ~0ull) && in(i)) best = i;
        Record r; Status s = w.db->getNearestRecordByKey(SizedBuf(2, q), r, SearchOptions(opts[o]));
        if (s.ok()) {
            int got = -1;
            for (int i = 0; i < w.nk; ++i) if (r.kv.key.size == 2 && memcmp(r.kv.key.data, w.kb[i], 2) == 0) got = i;
            sym_assert(got >= 0 && w.last(got), "nearest search with a custom comparison returns a key that does not exist");
            sym_assert(in(got), "nearest search with a custom comparison returns a key on the wrong side");
            const Ent* e = w.last(got);
            sym_assert(r.seqNum == e->seq && r.isDel() == e->del, "nearest search with a custom comparison does not return the latest version");
            if (best >= 0) sym_assert(o < 2 ? got <= best : got >= best, "nearest search with a custom comparison misses a nearer live key");
        } else sym_assert(s == Status::KEY_NOT_FOUND && best < 0, "nearest search with a custom comparison misses a live key");
        r.free();
        sym_cover(2);
        break; }
    case 2: {   // range, in order
        sym_bytes(lo + 1, 1, "lo"); sym_bytes(hi + 1, 1, "hi"); sym_assume(lo[1] >= hi[1]);
        Iterator it; sym_assert(it.init(w.db, SizedBuf(2, lo), SizedBuf(2, hi)).ok(), "iterator init failed");
        bool any = false, more = true;
        for (int i = 0; i < w.nk; ++i) if (w.live(i, ~0ull) && w.kb[i][1] <= lo[1] && w.kb[i][1] >= hi[1]) {
            sym_assert(more, "a range with a custom comparison ends too early");
            Record r; sym_assert(it.get(r).ok() && w.recIs(r, i, ~0ull), "a range with a custom comparison"); r.free();
            more = it.next().ok(); any = true;
        }
        if (!any) { Record r; sym_assert(!it.get(r).ok(), "a range with a custom comparison returns a record outside"); } else sym_assert(!more, "a range with a custom comparison does not end");
        it.close();
        sym_cover(3);
        break; }
    case 3: {   // seek to any key
        sym_bytes(q + 1, 1, "q"); bool gr = sym_choose(0, 1, "greater");
        int p = -1;
        if (gr) { for (int i = w.nk - 1; i >= 0; --i) if (w.live(i, ~0ull) && w.kb[i][1] <= q[1]) p = i; } else for (int i = 0; i < w.nk; ++i) if (w.live(i, ~0ull) && w.kb[i][1] >= q[1]) p = i;
        Iterator it; sym_assert(it.init(w.db).ok(), "iterator init failed");
        sym_assert(it.seek(SizedBuf(2, q), gr ? Iterator::GREATER : Iterator::SMALLER).ok(), "seek failed");
        Record r; Status s = it.get(r);
        if (p >= 0) sym_assert(s.ok() && w.recIs(r, p, ~0ull), "seek to a symbolic key with a custom comparison");
        if (s.ok()) r.free();
        it.close();
        break; }
    }
    w.stop();
}
