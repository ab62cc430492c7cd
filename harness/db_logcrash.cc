//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C36 quick args=0-7 time=150 cover=1,2,3,4 -- a database with only the log section; every program of 3 operations (2 with power failures) out of {write, remove, sync, purge up to any number, roll back to any number (process death only), close and reopen} after a synced write, the process dying (args 0-3) or the power failing (4-7) at every file-system operation of it; then recovery, every number read, further writes, two reopenings; arg%2: three or one record per log file; arg/2 odd: with a log file TTL (lazy loading)
//@ run C36 thorough args=0-7 time=900 cover=1,2,3,4 -- as quick with one more operation
#include "dbx.h"
#include "log_reclaimer.h"
#include "worker_mgr.h"
HARNESS {
    World w;
    uint64_t a = sym_arg();
    bool power = a >= 4;
    w.fixKeys({"ka", "kb"});
    w.c.logSectionOnly = true;
    w.c.maxEntriesInLogFile = a & 1 ? 1 : 3;
    if (a & 2) w.c.logFileTtl_sec = 1;
    bool ttl = a & 2;
    auto park = [&]() { if (ttl) DBMgr::get()->wMgr->addWorker(new LogReclaimer("reclaimer_0", w.g)); };   // never run
    mfs_reset(); fdb_model_reset(); w.boot(); park(); w.open();
    w.set(0); w.sync(true);
    size_t solid = 1;
    uint64_t purged = 0, purging = 0;   // up to purged is gone, up to purging may be
    bool rolling = false;
    mfs_coarse(sym_tier() ? 1 : 2);
    mfs_crash_at(sym_range(1, 500, "crash"), power ? MFS_POWER : MFS_KILL);
    for (int i = 0, n = (power ? 2 : 3) + (sym_tier() ? 1 : 0); i < n && !mfs_crashed(); ++i) switch (sym_choose(0, power ? 5 : 6, "op")) {
    case 0: w.set(0); break;
    case 1: w.set(1); break;
    case 2: w.del(0); break;
    case 3: w.sync(power); if (!mfs_crashed()) solid = w.h.size(); break;
    case 4: w.close(); if (!mfs_crashed()) { solid = w.h.size(); w.open(); } break;
    case 5: {
        w.sync(power); if (mfs_crashed()) break;
        solid = w.h.size();
        uint64_t q = sym_choose(1, w.seq, "purge upto");
        if (q > purging) purging = q;
        w.okOr(w.db->flushLogs(FlushOptions(), q), {Status::ALREADY_FLUSHED}, "purge failed");
        if (!mfs_crashed() && q > purged) { purged = q; sym_cover(2); }
        break; }
    case 6: {
        if (w.seq < purging + 1) break;
        uint64_t q = sym_choose(purging + 1, w.seq, "roll back to");
        solid = std::min<size_t>(solid, q); rolling = true;
        Status s = w.db->rollback(q);
        if (mfs_crashed()) break;
        sym_assert(s.ok(), "rollback failed");
        rolling = false;
        while (w.h.back().seq > q) w.h.pop_back();
        w.seq = q; solid = w.h.size();
        sym_cover(3);
        break; }
    }
    if (!mfs_crashed()) mfs_crash_now(power ? MFS_POWER : MFS_KILL); else sym_cover(1);
    w.die(); park();
    Status s = w.tryOpen();
    sym_assert(s.ok(), "the database does not open after a crash");
    uint64_t mx = 0; s = w.db->getMaxSeqNum(mx);
    sym_assert(s.ok() && mx >= solid && mx <= w.h.size(), "the maximum number after a crash is not one between the last synced and the last written");
    w.h.resize(mx); w.seq = mx;
    auto look = [&](const char* m) {
        uint64_t x = 0;
        sym_assert(w.db->getMaxSeqNum(x).ok() && x == w.seq, m);
        for (const Ent& e : w.h) {
            Record r; Status s = w.db->getRecord(e.seq, r);
            if (e.seq > purging) sym_assert(s.ok(), m);
            if (s.ok()) sym_assert(r.seqNum == e.seq && r.isDel() == e.del && r.kv.key == w.key(e.key) && (e.del || w.valIs(r.kv.value, e.val)), m);
            r.free();
        }
        { KV kv; sym_assert(!w.db->getSN(w.seq + 1, kv).ok(), m); kv.free(); }
        for (int k = 0; k < w.nk; ++k) {
            const Ent* e = w.last(k); SizedBuf out; Status s = w.db->get(w.key(k), out);
            if (!e || e->del) sym_assert(!s.ok(), m);
            else if (e->seq > purging) sym_assert(s.ok() && w.valIs(out, e->val), m);
            else sym_assert(!s.ok() || w.valIs(out, e->val), m);
            out.free();
        }
        Iterator it; sym_assert(it.initSN(w.db, purging + 1).ok(), m);
        for (uint64_t q = purging + 1; q <= w.seq; ++q) {
            const Ent& e = w.h[q - 1];
            Record r; sym_assert(it.get(r).ok() && r.seqNum == q && r.isDel() == e.del && r.kv.key == w.key(e.key), m); r.free();
            sym_assert(it.next().ok() == (q < w.seq), m);
        }
        it.close();
    };
    look("a log-only database after a crash");
    w.set(1); w.del(0);
    look("a log-only database after a crash and further writes");
    w.reopen();
    look("a log-only database after a crash, further writes and a reopen");
    w.set(0); w.sync();
    w.reopen();
    look("a log-only database after a crash, further writes and two reopens");
    w.close();
    if (ttl) {
        WorkerBase* r = DBMgr::get()->wMgr->getWorker("reclaimer_0");
        DBMgr::get()->wMgr->workers.erase("reclaimer_0");
        WorkerBase::DestroyOptions o; o.wait = true; r->destroy(o); delete r;
    }
    sym_assert(shutdown().ok(), "shutdown failed");
    sym_cover(4);
}
