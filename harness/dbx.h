// Common part of the database-level harnesses: a real jungle::DB on the
// in-memory file system and the ForestDB model, driven by a program of
// operations chosen symbolically, compared with a reference history.
#pragma once
#include "sym.h"
#include "mfs.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <libjungle/jungle.h>
#include "db_internal.h"
#include "db_mgr.h"
extern "C" void fdb_model_reset();
extern "C" void inline_threads_reset();
using namespace jungle;

enum { MAXK = 6, MAXH = 40 };
struct Ent { int key; bool del; uint8_t val; uint8_t meta; uint64_t seq; };
struct World {
    DB* db = nullptr;
    GlobalConfig g;
    DBConfig c;
    std::string path = "/db";
    int nk = 0;
    uint8_t kb[MAXK][4]; size_t kl[MAXK];
    std::vector<Ent> h;          // everything ever written, oldest first
    uint64_t seq = 0;            // last sequence number given
    uint64_t step = 1;           // > 1: explicit sequence numbers with that distance
    World() {
        g.numFlusherThreads = 0; g.numCompactorThreads = 0; g.numTableWriters = 0;
        c.maxEntriesInLogFile = 3; c.allowLogging = false; c.numL0Partitions = 1;
        c.lookupBoosterLimit_mb.clear();
    }
    // Keys 'p' + len symbolic bytes, k[0] < k[1] < ...; the part that is hashed is the common 'p'.
    void symKeys(int n, size_t len = 1) {
        nk = n;
        for (int i = 0; i < n; ++i) { kl[i] = len + 1; kb[i][0] = 'p'; sym_bytes(kb[i] + 1, len, "key"); if (i) sym_assume(memcmp(kb[i - 1], kb[i], len + 1) < 0); }
        c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; };
    }
    // Keys with real hashing.
    void fixKeys(std::initializer_list<const char*> l) { nk = 0; for (const char* s : l) { kl[nk] = strlen(s); memcpy(kb[nk], s, kl[nk]); nk++; } }
    SizedBuf key(int i) { return SizedBuf(kl[i], kb[i]); }
    void boot() { sym_assert(init(g).ok(), "init"); }
    Status tryOpen() { return DB::open(&db, path, c); }
    void open() { Status s = tryOpen(); sym_assert(s.ok(), "open of the database failed"); }
    void start() { mfs_reset(); fdb_model_reset(); boot(); open(); }
    void close() { sym_assert(DB::close(db).ok(), "close failed"); db = nullptr; }
    void reopen() { close(); open(); }
    void stop() { close(); sym_assert(shutdown().ok(), "shutdown failed"); }
    // The process dies now (or died at the crash point set with mfs_crash_at): everything in memory is gone.
    void die() { mfs_reboot(); fdb_model_reset(); inline_threads_reset(); DBMgr::instance = nullptr; db = nullptr; boot(); }
    const Ent* last(int k, uint64_t upto = ~0ull) { for (size_t i = h.size(); i-- > 0;) if (h[i].key == k && h[i].seq <= upto) return &h[i]; return nullptr; }
    bool tagVals = false;     // values are the number of the write instead of symbolic
    uint8_t freshVal() { if (tagVals) return (uint8_t)(h.size() + 1); uint8_t v; sym_bytes(&v, 1, "value"); return v; }
    size_t (*vlen)(uint8_t) = nullptr;   // a value is this many times the same byte (default: once)
    bool valIs(const SizedBuf& b, uint8_t v) {
        size_t n = vlen ? vlen(v) : 1;
        if (b.size != n) return false;
        for (size_t i = 0; i < n; ++i) if (((uint8_t*)b.data)[i] != v) return false;
        return true;
    }
    void set(int k) {
        uint8_t v = freshVal(), buf[256];
        size_t n = vlen ? vlen(v) : 1;
        if (n == 1) buf[0] = v; else memset(buf, v, n);
        KV kv(key(k), SizedBuf(n, buf));
        Status s = step > 1 ? db->setSN(seq + step, kv) : db->set(kv);
        sym_assert(s.ok(), "set failed");
        h.push_back({k, false, v, 0, seq += step});
    }
    void del(int k) {
        Status s = step > 1 ? db->delSN(seq + step, key(k)) : db->del(key(k));
        sym_assert(s.ok(), "del failed");
        h.push_back({k, true, 0, 0, seq += step});
    }
    void checkGet(DB* d, int k, uint64_t upto, const char* msg) {
        const Ent* e = last(k, upto);
        SizedBuf out;
        Status s = d->get(key(k), out);
        if (!e || e->del) sym_assert(s == Status::KEY_NOT_FOUND, msg);
        else sym_assert(s.ok() && valIs(out, e->val), msg);
        out.free();
    }
    void checkAll(DB* d, uint64_t upto, const char* msg) { for (int i = 0; i < nk; ++i) checkGet(d, i, upto, msg); }
    void checkAll(const char* msg) { checkAll(db, ~0ull, msg); }
    // Structural operations: none of them changes what is visible.
    void okOr(Status s, std::initializer_list<int> also, const char* msg) { bool ok = s.ok(); for (int a : also) if ((int)s == a) ok = true; sym_assert(ok, msg); }
    void sync(bool fs = false) { sym_assert(db->sync(fs).ok(), "sync failed"); }
    bool flushFsync = false;
    void flush() { sync(flushFsync); okOr(db->flushLogs(FlushOptions()), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flushLogs failed"); }
    void flushNoSync() { FlushOptions o; o.beyondLastSync = true; okOr(db->flushLogs(o), {Status::ALREADY_FLUSHED, Status::LOG_NOT_SYNCED}, "flushLogs beyond the last sync failed"); }
    void compactL0() { for (unsigned i = 0; i < c.numL0Partitions; ++i) okOr(db->compactL0(CompactOptions(), i), {}, "compactL0 failed"); }
    // One phase of a populated database: every key is left alone, written or deleted.
    void phase(const char* name, int from = 0, int choices = 2) {
        for (int i = from; i < nk; ++i) switch (sym_choose(0, choices, name)) { case 1: set(i); break; case 2: del(i); break; case 3: set(i); set(i); break; }
    }
    // Full walk by key, forward (and backward).
    bool live(int k, uint64_t upto) { const Ent* e = last(k, upto); return e && !e->del; }
    bool recIs(Record& r, int k, uint64_t upto) {
        const Ent* e = last(k, upto);
        return e && r.kv.key.size == kl[k] && memcmp(r.kv.key.data, kb[k], kl[k]) == 0 && valIs(r.kv.value, e->val) && r.seqNum == e->seq;
    }
    void checkIter(DB* d, uint64_t upto, bool back, const char* msg) {
        Iterator it;
        sym_assert(it.init(d).ok(), "iterator init failed");
        int first = -1, lastk = -1;
        for (int i = 0; i < nk; ++i) if (live(i, upto)) { if (first < 0) first = i; lastk = i; }
        Record r;
        if (first < 0) { sym_assert(!it.get(r).ok(), msg); it.close(); return; }
        for (int i = first; i <= lastk; ++i) {
            if (!live(i, upto)) continue;
            Record r; Status s = it.get(r);
            sym_assert(s.ok() && recIs(r, i, upto), msg);
            r.free();
            s = it.next();
            sym_assert(s.ok() == (i != lastk), msg);
        }
        if (back) {
            sym_assert(it.gotoEnd().ok(), msg);
            for (int i = lastk; i >= first; --i) {
                if (!live(i, upto)) continue;
                Record r; Status s = it.get(r);
                sym_assert(s.ok() && recIs(r, i, upto), msg);
                r.free();
                s = it.prev();
                sym_assert(s.ok() == (i != first), msg);
            }
        }
        it.close();
    }
    // Seek to every key in both directions (keys are in order).
    void checkSeek(DB* d, uint64_t upto, const char* msg) {
        Iterator it;
        sym_assert(it.init(d).ok(), "iterator init failed");
        for (int i = 0; i < nk; ++i) for (int gr = 0; gr < 2; ++gr) {
            int p = -1;
            if (gr) { for (int j = nk - 1; j >= i; --j) if (live(j, upto)) p = j; }
            else for (int j = 0; j <= i; ++j) if (live(j, upto)) p = j;
            sym_assert((gr ? it.gotoBegin() : it.gotoEnd()).ok(), "goto failed");
            sym_assert(it.seek(key(i), gr ? Iterator::GREATER : Iterator::SMALLER).ok(), "seek failed");
            Record r; Status s = it.get(r);
            if (p >= 0) {
                sym_assert(s.ok() && recIs(r, p, upto), msg);
                // One step away and back, in both directions.
                for (int turn = 0; turn < 2; ++turn) {
                    bool f = (turn == 0) == !gr; int q = -1;
                    if (f) { for (int j = nk - 1; j > p; --j) if (live(j, upto)) q = j; } else for (int j = 0; j < p; ++j) if (live(j, upto)) q = j;
                    if (q < 0) continue;
                    sym_assert((f ? it.next() : it.prev()).ok(), msg);
                    Record r2; sym_assert(it.get(r2).ok() && recIs(r2, q, upto), msg); r2.free();
                    sym_assert((f ? it.prev() : it.next()).ok(), msg);
                    sym_assert(it.get(r2).ok() && recIs(r2, p, upto), msg); r2.free();
                }
            }
            else if (s.ok()) { bool any = false; for (int j = 0; j < nk; ++j) any |= live(j, upto) && recIs(r, j, upto); sym_assert(any, msg); }
            r.free();
        }
        it.close();
    }
    // Sequence iteration: everything returned was written, in order, not after 'upto'.
    void checkSeqIter(DB* d, uint64_t upto, const char* msg) {
        Iterator it;
        sym_assert(it.initSN(d).ok(), "iterator init failed");
        uint64_t prev = 0; bool got[MAXH] = {};
        for (;;) {
            Record r; if (!it.get(r).ok()) break;
            sym_assert(r.seqNum > prev && r.seqNum <= upto, msg);
            bool ok = false;
            for (size_t i = 0; i < h.size(); ++i) if (h[i].seq == r.seqNum) {
                got[i] = true;
                ok = r.kv.key.size == kl[h[i].key] && memcmp(r.kv.key.data, kb[h[i].key], kl[h[i].key]) == 0 && r.isDel() == h[i].del && (h[i].del || valIs(r.kv.value, h[i].val));
            }
            sym_assert(ok, msg);
            prev = r.seqNum;
            r.free();
            if (!it.next().ok()) break;
        }
        for (int k = 0; k < nk; ++k) if (live(k, upto)) for (size_t i = 0; i < h.size(); ++i) if (&h[i] == last(k, upto)) sym_assert(got[i], msg);
        it.close();
    }
};
