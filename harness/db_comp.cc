//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C34 quick args=0-5 time=90 cover=1,2 -- values of 0, 1, 3 or 120 bytes; per record the compression callbacks decline, cancel, fail, shrink or expand the value (symbolic choice), with a log write buffer of 128 bytes (args 3-5: 4096); 3 writes of two keys, and then every sequence of 2 out of {sync, flush, L0 compaction, reopen, another write}; all reads return the original values
//@ run C34 thorough args=0-5 time=800 cover=1,2 -- as quick, 3 steps
#include "dbx.h"
static size_t lens(uint8_t tag) { static const size_t L[] = {0, 1, 3, 120}; return L[tag & 3]; }
// Compressed form: mode byte, value byte, count byte, and 'pad' more bytes.
static int modeOf[256];
static size_t padOf(int m) { return m == 4 ? 0 : 200; }
static size_t outLen(int m) { return 3 + padOf(m); }
HARNESS {
    World w;
    uint64_t a = sym_arg();
    w.fixKeys({"ka", "kb"});
    w.vlen = lens;
    memset(modeOf, 0xff, sizeof modeOf);
    w.g.memTableFlushBufferSize = a < 3 ? 128 : 4096;
    w.c.maxEntriesInLogFile = a % 3 == 1 ? 1 : 8;
    auto mode = [](const Record& r) -> int& { return modeOf[r.kv.value.size ? *(uint8_t*)r.kv.value.data : 0]; };
    w.c.compOpt.cbGetMaxSize = [mode](DB*, const Record& r) -> ssize_t {
        int& m = mode(r); if (m < 0) m = sym_choose(1, 6, "mode");
        return m == 1 ? 0 : m == 6 ? -1 : 300;
    };
    w.c.compOpt.cbCompress = [mode](DB*, const Record& r, SizedBuf& dst) -> ssize_t {
        int m = mode(r);
        if (m == 2) return 0;
        if (m == 3) return -1;
        sym_assert(dst.size >= outLen(m), "the compression buffer is too small");
        uint8_t* d = (uint8_t*)dst.data; d[0] = m; d[1] = r.kv.value.size ? *(uint8_t*)r.kv.value.data : 0; d[2] = r.kv.value.size; memset(d + 3, 0x55, padOf(m));
        return outLen(m);
    };
    w.c.compOpt.cbDecompress = [](DB*, const SizedBuf& src, SizedBuf& dst) -> ssize_t {
        uint8_t* s = (uint8_t*)src.data; int m = s[0];
        sym_assert((m == 4 || m == 5) && src.size == outLen(m), "decompression of something that was not compressed");
        sym_assert(dst.size == s[2], "the size of the decompression buffer is not the original size");
        if (s[2]) memset(dst.data, s[1], s[2]);
        return s[2];
    };
    w.tagVals = true;
    w.start();
    if (a % 3 == 2) { modeOf[1] = 4; w.set(1); w.flush(); w.compactL0(); }
    auto wr = [&](int k, int cls) { // value length and mode are symbolic: the tag is the number of the write * 4 + length class
        uint8_t t = (w.h.size() + 1) * 4 + cls, buf[128];
        if (lens(t) == 0) t = 0;
        memset(buf, t, 128);
        KV kv(w.key(k), SizedBuf(lens(t), buf));
        sym_assert(w.db->set(kv).ok(), "set failed");
        w.h.push_back({k, false, t, 0, ++w.seq});
    };
    wr(0, sym_choose(0, 3, "length")); wr(0, 2);
    for (int i = 0, n = sym_tier() ? 3 : 2; i < n; ++i) switch (sym_choose(0, 4, "step")) {
    case 0: w.sync(); break;
    case 1: w.flush(); break;
    case 2: w.flush(); w.compactL0(); break;
    case 3: w.reopen(); break;
    case 4: modeOf[w.h.size() + 1] = 5; w.set(1); break;
    }
    w.checkAll("compressed values read differently");
    w.checkIter(w.db, ~0ull, true, "compressed values read differently by an iterator");
    sym_cover(1);
    w.reopen();
    w.checkAll("compressed values read differently after a reopen");
    w.checkSeqIter(w.db, ~0ull, "compressed values read differently by a sequence iterator");
    sym_cover(2);
    w.stop();
}
