//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C35 quick args=0-7 time=200 cover=1,2,3,4 -- a database with only the log section; every program of 4 operations (3 with a TTL) out of {write one of two keys, remove, sync, purge up to any number, roll back to any number, close and reopen} after 2 writes (arg%2: many or one record per log file; arg/2 odd: at most one memtable is kept; arg/4: with a log file TTL, and the reclaimer as a further operation, with or without the TTL having passed; a snapshot opened at any point); every number, key and iteration is compared with the history
//@ run C35 thorough args=0-7 time=800 cover=1,2,3,4 -- as quick, 5 (4) operations
#include "dbx.h"
#include "log_reclaimer.h"
#include "worker_mgr.h"
extern int64_t jrt_clock_ns;
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.c.logSectionOnly = true;
    w.c.maxEntriesInLogFile = a & 1 ? 1 : 8;
    if (a & 2) w.c.maxKeepingMemtables = 1;
    bool ttl = a & 4; if (ttl) w.c.logFileTtl_sec = 1;
    mfs_reset(); fdb_model_reset(); w.boot();
    if (ttl) DBMgr::get()->wMgr->addWorker(new LogReclaimer("reclaimer_0", w.g));   // never run: the harness calls it
    w.open();
    DB* snap = nullptr; uint64_t S = 0, SP = 0;
    auto dropSnap = [&]() { if (snap) sym_assert(DB::close(snap).ok(), "closing the snapshot failed"); snap = nullptr; };
    w.set(0); w.set(1);
    uint64_t purged = 0, synced = 0;
    for (int i = 0, n = (sym_tier() ? 5 : 4) - ttl; i < n; ++i) switch (sym_choose(0, ttl ? 9 : 7, "op")) {
    case 0: w.set(0); break;
    case 1: w.set(1); break;
    case 2: w.del(0); break;
    case 3: w.sync(); synced = w.seq; break;
    case 4: {
        w.sync(); synced = w.seq;
        uint64_t q = sym_range(1, w.seq, "purge upto");
        w.okOr(w.db->flushLogs(FlushOptions(), q), {Status::ALREADY_FLUSHED}, "purge failed");
        if (q > purged) purged = q;
        sym_cover(2);
        break; }
    case 5: {
        if (w.seq < purged + 1) break;
        dropSnap();
        uint64_t q = sym_range(purged + 1, w.seq, "roll back to");
        sym_assert(w.db->rollback(q).ok(), "rollback failed");
        while (w.h.back().seq > q) w.h.pop_back();
        w.seq = synced = q;
        sym_cover(3);
        break; }
    case 6: dropSnap(); w.reopen(); synced = w.seq; break;
    case 7: dropSnap(); sym_assert(w.db->openSnapshot(&snap).ok(), "openSnapshot failed"); S = w.seq; SP = purged; sym_cover(4); break;
    case 8: jrt_clock_ns += 2000000000ll; // fall through
    case 9: w.okOr(w.db->p->logMgr->doLogReclaim(), {}, "reclaim failed"); break;
    }
    if (snap) {   // everything not purged when it was opened
        for (int k = 0; k < w.nk; ++k) {
            const Ent* e = w.last(k, S); SizedBuf out; Status s = snap->get(w.key(k), out);
            if (!e || e->del) sym_assert(!s.ok(), "a removed key is read from a snapshot of the log section");
            else if (e->seq > SP) sym_assert(s.ok() && w.valIs(out, e->val), "the value is not read from a snapshot of the log section");
            out.free();
        }
        Iterator it; sym_assert(it.initSN(snap, SP + 1).ok(), "iterator init failed");
        for (uint64_t q = SP + 1; q <= S; ++q) {
            const Ent& e = w.h[q - 1];
            Record r; sym_assert(it.get(r).ok() && r.seqNum == q && r.isDel() == e.del && r.kv.key == w.key(e.key), "iteration by number over a snapshot of the log section"); r.free();
            sym_assert(it.next().ok() == (q < S), "iteration by number over a snapshot of the log section ends");
        }
        it.close();
        dropSnap();
    }
    for (int round = 0; round < 2; ++round) {
        uint64_t mx = 0;
        sym_assert(w.db->getMaxSeqNum(mx).ok() && mx == w.seq, "maximum sequence number of a log section");
        for (const Ent& e : w.h) {
            Record r; Status s = w.db->getRecord(e.seq, r);
            if (e.seq > purged) sym_assert(s.ok() && r.seqNum == e.seq && r.isDel() == e.del && r.kv.key == w.key(e.key) && (e.del || w.valIs(r.kv.value, e.val)), "a record of the log section is not read by its number");
            r.free();
        }
        { KV kv; sym_assert(!w.db->getSN(w.seq + 1, kv).ok(), "a record that was rolled back or never written is read"); kv.free(); }
        for (int k = 0; k < w.nk; ++k) {
            const Ent* e = w.last(k); SizedBuf out; Status s = w.db->get(w.key(k), out);
            if (!e || e->del) sym_assert(!s.ok(), "a removed key is read from the log section");
            else if (e->seq > purged) sym_assert(s.ok() && w.valIs(out, e->val), "the latest value is not read from the log section");
            else sym_assert(!s.ok() || w.valIs(out, e->val), "an old value is read from the log section");
            out.free();
        }
        Iterator it; sym_assert(it.initSN(w.db, purged + 1).ok(), "iterator init failed");
        uint64_t q = purged + 1;
        for (; q <= w.seq; ++q) {
            const Ent& e = w.h[q - 1];
            Record r; sym_assert(it.get(r).ok() && r.seqNum == q && r.isDel() == e.del && r.kv.key == w.key(e.key), "iteration by number over the log section"); r.free();
            sym_assert(it.next().ok() == (q < w.seq), "iteration by number over the log section ends");
        }
        it.close();
        sym_cover(1);
        if (!round) w.reopen();
    }
    w.set(0);
    w.checkGet(w.db, 0, ~0ull, "write after everything");
    w.close();
    if (ttl) {
        WorkerBase* r = DBMgr::get()->wMgr->getWorker("reclaimer_0");
        DBMgr::get()->wMgr->workers.erase("reclaimer_0");
        WorkerBase::DestroyOptions o; o.wait = true; r->destroy(o); delete r;
    }
    sym_assert(shutdown().ok(), "shutdown failed");
}
