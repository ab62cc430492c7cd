//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C30 quick args=0,3,5,6 time=80 cover=1 -- two databases (each empty or with records in the log or tables), a global batch of 1 or 2 records for each; while it is pending, one of {read everything of both, sync both, flush both, snapshots of both}, then everything is read again, also after a reopen or a flush; args 4-7: one of the two batches has unacceptable sequence numbers
//@ run C30 thorough args=0-7 time=600 cover=1 -- as quick with two operations while it is pending
#include "dbx.h"
static World *A, *B;
static std::vector<Ent> oldA, oldB, newA, newB;
static void all(World& w, DB* d, const char* msg) { w.checkAll(d, ~0ull, msg); w.checkIter(d, ~0ull, false, msg); w.checkSeqIter(d, ~0ull, msg); }
static void mid() {
    A->h = oldA; B->h = oldB;
    int n = sym_tier() ? 2 : 1;
    for (int i = 0; i < n; ++i) switch (sym_choose(0, 3, "while pending")) {
    case 0: break;
    case 1: A->db->sync(false); B->db->sync(false); break;
    case 2: A->flushNoSync(); B->flushNoSync(); break;
    case 3: {
        DB *s = nullptr, *t = nullptr;
        sym_assert(A->db->openSnapshot(&s).ok() && B->db->openSnapshot(&t).ok(), "openSnapshot failed");
        all(*A, s, "a snapshot shows a part of a pending global batch"); all(*B, t, "a snapshot shows a part of a pending global batch");
        DB::close(s); DB::close(t); break; }
    }
    all(*A, A->db, "a part of a pending global batch is visible"); all(*B, B->db, "a part of a pending global batch is visible");
    A->h = newA; B->h = newB;
    sym_cover(1);
}
static void prep(World& w, int how) {
    switch (how) { case 1: w.set(0); w.set(1); break; case 2: w.set(0); w.flush(); break; }
}
HARNESS {
    World a, b; A = &a; B = &b;
    uint64_t arg = sym_arg();
    a.fixKeys({"ka", "kb"}); b.fixKeys({"ka", "kb"});
    b.path = "/da";      // before a's path, locked first
    a.c.maxEntriesInLogFile = b.c.maxEntriesInLogFile = (arg & 1) ? 1 : 8;
    a.start(); b.open();
    prep(a, (arg & 2) ? 1 : sym_choose(0, 2, "prepare a")); prep(b, (arg & 2) ? sym_choose(0, 2, "prepare b") : 1);
    oldA = a.h; oldB = b.h;
    std::list<Record> la, lb; uint8_t v[4]; int nv = 0;
    for (World* w : {A, B}) {
        int n = sym_choose(1, 2, "records");
        for (int i = 0; i < n; ++i) {
            Record r; int k = i ? 1 : sym_choose(0, 1, "key"); bool del = !i && sym_choose(0, 1, "del");
            r.kv.key = w->key(k);
            if (del) r.type = Record::DELETION; else { v[nv] = w->freshVal(); r.kv.value = SizedBuf(1, &v[nv]); }
            (w == A ? la : lb).push_back(r);
            w->h.push_back({k, del, v[nv], 0, ++w->seq}); nv++;
        }
    }
    newA = a.h; newB = b.h;
    if (arg & 4) {      // one of the two is not acceptable: neither is applied
        World& bad = sym_choose(0, 1, "refused") ? a : b; std::list<Record>& l = &bad == &a ? la : lb;
        switch (sym_choose(0, 2, "why")) {
        case 0: l.front().seqNum = 1; sym_assume(l.size() == 1 && !(&bad == &a ? oldA : oldB).empty()); break;
        case 1: sym_assume(l.size() == 2); l.back().seqNum = 1000; break;
        case 2: sym_assume(l.size() == 2); l.front().seqNum = l.back().seqNum = 1000; break;
        }
        DB::enableDebugCallbacks(false);
        GlobalBatch x; x.addBatch(a.db, la).addBatch(b.db, lb);
        sym_assert(!x.execute().ok(), "a global batch with wrong sequence numbers is accepted");
        a.h = oldA; b.h = oldB; a.seq = a.h.size(); b.seq = b.h.size();
        all(a, a.db, "a refused global batch changed the state"); all(b, b.db, "a refused global batch changed the state");
        if (sym_choose(0, 1, "then")) { a.reopen(); b.reopen(); } else { a.flush(); b.flush(); }
        a.set(0); b.set(1);
        all(a, a.db, "state some time after a refused global batch"); all(b, b.db, "state some time after a refused global batch");
        sym_cover(1); b.close(); a.stop(); return;
    }
    DebugParams dp; dp.newLogBatchCb = [](const DebugParams::GenericCbParams&) { mid(); };
    DB::setDebugParams(dp); DB::enableDebugCallbacks(true);
    GlobalBatch g; g.addBatch(a.db, la).addBatch(b.db, lb);
    sym_assert(g.execute().ok(), "global batch failed");
    DB::enableDebugCallbacks(false);
    all(a, a.db, "state after a global batch"); all(b, b.db, "state after a global batch");
    if (sym_choose(0, 1, "then")) { a.reopen(); b.reopen(); } else { a.flush(); b.flush(); a.set(0); b.set(1); }
    all(a, a.db, "state some time after a global batch"); all(b, b.db, "state some time after a global batch");
    b.close(); a.stop();
}
