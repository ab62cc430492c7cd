//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C39 quick args=0-9 time=90 cover=1 -- two records and a removal, the first record with every metadata length from 484 to 520 (arg 0; 1: compressed), value length from 4084 to 4104 (2; 3: compressed to the same length, 4: to 9 bytes more), key length from 1 to 40 and 248 to 260 (5), total size within 24 bytes of the log write buffer (6; 7: buffer of 64 bytes), metadata and value of 0 to 2 bytes (8; 9: compressed); contents with symbolic bytes at both ends; read back in six ways before and after sync, recovery of the log, flush, compaction and reopening
//@ run C39 thorough args=0-9 time=600 cover=1 -- as quick with wider windows (about three times as many lengths)
#include "dbx.h"
struct R { size_t kl, ml, vl; uint8_t* k; uint8_t* m; uint8_t* v; bool del; uint64_t seq; };
static uint8_t* fill(size_t n, const char* what) {
    uint8_t* p = (uint8_t*)malloc(n + 1); memset(p, 'x', n + 1);
    if (n) { sym_bytes(p, 1, what); sym_bytes(p + n - 1, 1, what); }
    if (n > 300) sym_bytes(p + n / 2, 1, what);
    return p;
}
static bool eq(const SizedBuf& b, const uint8_t* p, size_t n) { return b.size == n && (!n || !memcmp(b.data, p, n)); }
static int expand;
HARNESS {
    World w;
    unsigned a = sym_arg(); bool wide = sym_tier();
    bool comp = a == 1 || a == 3 || a == 4 || a == 9;
    expand = a == 4 ? 9 : 0;
    w.c.bloomFilterBitsPerUnit = 10;
    if (a == 7) w.g.memTableFlushBufferSize = 64;
    if (a == 6) w.g.memTableFlushBufferSize = 1024;
    if (comp) {
        w.c.compOpt.cbGetMaxSize = [](DB*, const Record& r) -> ssize_t { return r.kv.value.size + expand; };
        w.c.compOpt.cbCompress = [](DB*, const Record& r, SizedBuf& dst) -> ssize_t {
            sym_assert(dst.size >= r.kv.value.size + expand, "compression buffer too small");
            if (!r.kv.value.size) return 0;
            memcpy(dst.data, r.kv.value.data, r.kv.value.size); memset((char*)dst.data + r.kv.value.size, 'z', expand); dst.data[0] ^= 0x55;
            return r.kv.value.size + expand; };
        w.c.compOpt.cbDecompress = [](DB*, const SizedBuf& src, SizedBuf& dst) -> ssize_t {
            sym_assert(dst.size + expand == src.size, "decompression buffer of another size than the original");
            if (dst.size) { memcpy(dst.data, src.data, dst.size); dst.data[0] ^= 0x55; }
            return dst.size; };
    }
    R r[2]; memset(r, 0, sizeof r);
    r[0].kl = 3; r[0].ml = 2; r[0].vl = 2; r[1].kl = 4; r[1].ml = 1; r[1].vl = 5;
    int x = wide ? 40 : 0;
    switch (a) {
    case 0: case 1: r[0].ml = sym_choose(484 - x, 520 + x, "meta length"); break;
    case 2: case 3: case 4: r[0].vl = sym_choose(4084 - x, 4104 + x, "value length"); break;
    case 5: r[0].kl = sym_choose(0, 1, "long") ? sym_choose(248 - x, 260 + x, "key length") : sym_choose(1, 40 + x, "key length"); if (r[0].kl == 4) r[1].kl = 5; break;
    case 6: r[0].vl = sym_choose(1024 - 64 - x, 1024 + x / 2, "value length"); break;
    case 7: r[0].vl = sym_choose(0, 70 + x, "value length"); r[1].vl = 20; break;
    default: r[0].ml = sym_choose(0, wide ? 4 : 2, "meta length"); r[0].vl = sym_choose(0, wide ? 4 : 2, "value length"); r[1].ml = sym_choose(0, 1, "meta length"); r[1].vl = 0; break;
    }
    for (auto& q : r) {
        q.k = (uint8_t*)malloc(q.kl); memset(q.k, 'k', q.kl); q.k[0] = &q == r ? 'a' : 'b';
        q.m = fill(q.ml, "meta"); q.v = fill(q.vl, "value");
    }
    auto put = [&](R& q) {
        Record rec; rec.kv.key = SizedBuf(q.kl, q.k); rec.meta = SizedBuf(q.ml, q.m); rec.kv.value = SizedBuf(q.vl, q.v);
        if (q.del) rec.type = Record::DELETION;
        sym_assert(w.db->setRecordByKey(rec).ok(), "a record is refused"); q.seq = ++w.seq;
    };
    w.start();
    auto check = [&](const char* when) {
        for (auto& q : r) {
            SizedBuf key(q.kl, q.k);
            SizedBuf v; Status s = w.db->get(key, v);
            sym_assert(q.del ? s == Status::KEY_NOT_FOUND : s.ok() && eq(v, q.v, q.vl), when); v.free();
            Record o; s = w.db->getRecordByKey(key, o);
            sym_assert(q.del ? !s.ok() : s.ok() && eq(o.kv.value, q.v, q.vl) && eq(o.meta, q.m, q.ml) && eq(o.kv.key, q.k, q.kl) && o.seqNum == q.seq, when); o.free();
            Record mo; s = w.db->getRecordByKey(key, mo, true);
            sym_assert(s.ok() && mo.seqNum == q.seq && eq(mo.meta, q.m, q.ml), when); mo.free();
        }
        Iterator it; sym_assert(it.init(w.db).ok(), "iterator");
        size_t n = 0, all = 0; bool more = true;
        for (auto& q : r) all += !q.del;
        for (auto& q : r) if (!q.del) {
            Record o; sym_assert(it.get(o).ok() && eq(o.kv.key, q.k, q.kl) && eq(o.kv.value, q.v, q.vl) && eq(o.meta, q.m, q.ml) && o.seqNum == q.seq, when); o.free(); n++; more = it.next().ok();
        }
        sym_assert(n == all && !more, when); it.close();
        if (r[1].del) return; // the older version in the tables may be listed too
        Iterator is; sym_assert(is.initSN(w.db).ok(), "iterator");
        for (auto& q : r) { Record o2; sym_assert(is.get(o2).ok() && eq(o2.kv.key, q.k, q.kl) && o2.seqNum == q.seq && (q.del || (eq(o2.kv.value, q.v, q.vl) && eq(o2.meta, q.m, q.ml))), when); o2.free(); is.next(); }
        is.close();
    };
    put(r[0]); put(r[1]);
    check("read from memory");
    sym_assert(w.db->sync(false).ok(), "sync");
    check("read after a sync");
    w.reopen();
    check("read after recovery of the log");
    sym_assert(w.db->flushLogs(FlushOptions()).ok(), "flush");
    check("read from the tables");
    w.compactL0();
    check("read after a compaction");
    w.reopen();
    check("read after reopening");
    r[1].del = true; put(r[1]);
    check("read after a removal with metadata");
    sym_assert(w.db->sync(false).ok(), "sync"); w.reopen();
    check("read of a removal after recovery of the log");
    sym_assert(w.db->flushLogs(FlushOptions()).ok(), "flush"); w.reopen();
    check("read of a removal from the tables");
    w.stop();
    for (auto& q : r) { free(q.k); free(q.m); free(q.v); }
    sym_cover(1);
}
