//@ src ALL
//@ models mfs fdb_model inline_threads
//@ flags -fno-access-control
//@ run C26 quick args=0-7 time=100 cover=1 -- real DB (ForestDB is a model): two keys, four (arg 1: five) writes in log files of two records, in args 4-7 flushed to tables (6-7: and two more writes), synced, then the process dies and one file is damaged: args 0-1 log files, 2, 4, 6 the log manifest, 3, 5, 7 the table manifest; any file and position, cut there or one byte replaced by any other (not the unprotected flag word of a record); the database opens (a manifest from its backup), reads and iteration give a state of the history without anything missing before the damage, and writes after that survive a reopen
//@ run C26 thorough args=0-7 time=600 cover=1 -- as quick
#include "dbx.h"
static char names[32][64]; static size_t nf;
// the word of flags that starts each record is under no checksum
static bool covered(const uint8_t* d, size_t sz, size_t p) {
    auto u32 = [&](size_t o) { return (uint32_t)d[o] << 24 | d[o + 1] << 16 | d[o + 2] << 8 | d[o + 3]; };
    if (p < 12) return true;
    for (size_t o = 12; o + 36 <= sz && !d[o];) {
        if (p < o + 8) return p < o;
        size_t len = 0; for (int i = 0; i < 3; ++i) len += u32(o + 8 + 4 + 8 + 4 * i);
        o += 8 + 4 + 20 + 4 + len;
        if (p < o) return true;
    }
    return false;
}
static uint64_t intact; // writes wholly in files, and bytes, before the damage
static bool damage(const char* pre, size_t from) {
    nf = mfs_list("/db", names, 32); size_t c[32], n = 0;
    for (size_t i = 0; i < nf; ++i) if (!strncmp(names[i], pre, strlen(pre)) && (strstr(names[i], "manifest") != nullptr) == (strstr(pre, "manifest") != nullptr)) c[n++] = i;
    sym_assert(n > 0, "no file to damage");
    std::string f = std::string("/db/") + names[c[sym_choose(from, n - 1, "file")]];
    size_t sz = mfs_size(f.c_str()); if (!sz) return false;
    uint8_t* d = mfs_data(f.c_str()); size_t p = sym_choose(0, sz - 1, "position");
    intact = f.back() - '0'; uint64_t intact_files = intact * 2;
    if (!strchr(pre, '_')) { intact *= 2; size_t o = 12; auto u32 = [&](size_t o) { return (uint32_t)d[o] << 24 | d[o + 1] << 16 | d[o + 2] << 8 | d[o + 3]; };
        while (o + 36 <= sz && !d[o]) { size_t len = 36; for (int i = 0; i < 3; ++i) len += u32(o + 20 + 4 * i); if ((o += len) > p) break; ++intact; } }
    // a file cut short that is not the last one is tolerated as it is (what it had is lost, what later files have is kept)
    if ((from == 0 || f.back() == (char)('0' + n - 1)) && sym_choose(0, 1, "cut")) mfs_resize(f.c_str(), p);
    else { if (!strchr(pre, '_')) intact = f.back() == '0' ? 0 : intact_files; if (pre[3] == 0 && !covered(d, sz, p)) return false; uint8_t v; sym_bytes(&v, 1, "byte"); sym_assume(v != d[p]); d[p] = v; }
    return true;
}
HARNESS {
    World w; unsigned a = sym_arg();
    w.fixKeys({"pa", "pb"}); w.tagVals = true; w.c.maxEntriesInLogFile = 2;
    w.start();
    if (a == 1) { w.set(0); w.set(1); w.del(0); w.set(1); w.set(0); }
    else { w.set(0); w.del(1); w.set(0); w.set(1); }
    w.sync(true);
    if (a >= 4) { w.flush(); if (a >= 6) { w.set(1); w.del(0); w.sync(true); } }
    w.die();
    static const char* pre[] = {"log", "log", "log0000_manifest", "table0000_manifest", "log0000_manifest", "table0000_manifest", "log0000_manifest", "table0000_manifest"};
    if (!damage(pre[a], a == 1)) return;
    Status s = w.tryOpen();
    if (!s.ok()) { sym_cover(2); sym_assert(shutdown().ok(), "shutdown"); return; }
    uint64_t ok = ~0ull, low = a > 1 ? w.seq : intact;
    for (uint64_t n = low; n <= w.seq; ++n) {
        bool same = true;
        for (int k = 0; k < w.nk; ++k) { SizedBuf o; Status q = w.db->get(w.key(k), o); const Ent* e = w.last(k, n); bool live = e && !e->del; if (q.ok() != live || (live && !w.valIs(o, e->val))) same = false; o.free(); }
        if (same) ok = n;
    }
    sym_assert(ok <= w.seq, "a damaged file makes reads return what was never the state");
    w.checkIter(w.db, ok, true, "a damaged file makes iteration return what was never the state");
    w.seq = ok; while (w.h.size() > ok) w.h.pop_back();
    KV kv(w.key(0), w.key(1)); sym_assert(w.db->set(kv).ok(), "set after damage"); sym_assert(w.db->sync(true).ok(), "sync after damage");
    w.close(); w.open();
    SizedBuf o; sym_assert(w.db->get(w.key(0), o).ok() && o == w.key(1), "a record written after recovery from damage is lost"); o.free();
    w.checkGet(w.db, 1, ~0ull, "a record recovered from damage is lost later");
    w.stop();
    sym_cover(1);
}
