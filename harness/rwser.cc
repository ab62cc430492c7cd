//@ src internal_helper.cc fileops_posix.cc fileops_directio.cc
//@ models mfs
//@ run C05 quick args=0-4 time=60 cover=1,2,3,4,5 -- arg 0/1/2: every sequence of 3 (thorough 4) items out of {u64,u32,u16,u8,raw bytes,sized buffer (0..5 bytes)} with symbolic contents written to a fixed buffer / a growing buffer / a file, then read back in order; encoding compared byte for byte with the big-endian format; arg 3: every sequence of 2 (thorough 3) reads out of a 7-byte buffer (thorough 12) with symbolic contents and every start position; arg 4: the stand-alone memory and file helpers (append_mem/read_mem/append_file/read_file) at symbolic offsets
//@ run C05 thorough args=0-4 time=800 cover=1,2,3,4,5 -- as quick, deeper
#include "sym.h"
#include "mfs.h"
#include "internal_helper.h"
#include "fileops_posix.h"
#include <cstring>
using namespace jungle;
static const size_t MAXI = 4;
struct It { int kind; uint64_t v; size_t n; uint8_t b[8]; } it[MAXI];
static uint8_t ref[128]; static size_t rl;
static void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) ref[rl++] = (uint8_t)(v >> (8 * i)); }
static void gen(It& x) {
    x.kind = (int)sym_choose(0, 5, "kind"); x.n = 0;
    if (x.kind < 4) { x.v = sym_u64("value"); int w = 8 >> x.kind; if (w < 8) x.v &= (1ull << (8 * w)) - 1; be(x.v, w); }
    else { x.n = sym_choose(0, 5, "len"); sym_bytes(x.b, x.n, "bytes"); if (x.kind == 5) be(x.n, 4); memcpy(ref + rl, x.b, x.n); rl += x.n; }
}
static void put(RwSerializer& rw, It& x) {
    Status s;
    switch (x.kind) {
    case 0: s = rw.putU64(x.v); break;
    case 1: s = rw.putU32((uint32_t)x.v); break;
    case 2: s = rw.putU16((uint16_t)x.v); break;
    case 3: s = rw.putU8((uint8_t)x.v); break;
    case 4: s = rw.put(x.b, x.n); break;
    case 5: s = rw.putSb(SizedBuf(x.n, x.b)); break;
    }
    sym_assert(s.ok(), "write fails");
}
static void get(RwSerializer& rw, It& x, bool mem) {
    Status s; uint64_t v = 0;
    switch (x.kind) {
    case 0: v = rw.getU64(s); break;
    case 1: v = rw.getU32(s); break;
    case 2: v = rw.getU16(s); break;
    case 3: v = rw.getU8(s); break;
    case 4: { uint8_t b[8]; s = rw.get(b, x.n); sym_assert(memcmp(b, x.b, x.n) == 0, "bytes read back differ"); break; }
    case 5: { SizedBuf o; bool clone = !mem || sym_choose(0, 1, "clone"); s = rw.getSb(o, clone);
        sym_assert(o.size == x.n && memcmp(o.data, x.b, x.n) == 0, "buffer read back differs"); if (clone) o.free(); break; }
    }
    sym_assert(s.ok(), "read fails");
    if (x.kind < 4) sym_assert(v == x.v, "number read back differs");
}
static void roundtrip(int mode) {
    size_t n = sym_tier() ? 4 : 3;
    uint64_t base = sym_live_heap();
    rl = 0;
    for (size_t i = 0; i < n; ++i) gen(it[i]);
    if (mode == 0) {
        uint8_t* buf = new uint8_t[rl ? rl : 1];
        { RwSerializer w(buf, rl); for (size_t i = 0; i < n; ++i) put(w, it[i]); sym_assert(w.pos() == rl, "write position"); }
        sym_assert(memcmp(buf, ref, rl) == 0, "encoding differs from the big-endian format");
        if (rl) {
            RwSerializer r(SizedBuf(rl, buf)); size_t p = 0;
            for (size_t i = 0; i < n; ++i) { sym_assert(r.available(rl - p) && !r.available(rl - p + 1), "available"); get(r, it[i], true); p = r.pos(); }
            sym_assert(r.pos() == rl && r.size() == rl, "read position");
            Status s; r.getU8(s); sym_assert(!s.ok() && r.pos() == rl, "read past the end succeeds");
        }
        delete[] buf;
    } else if (mode == 1) {
        SizedBuf b; size_t pre = sym_choose(0, 2, "prealloc"); if (pre) b.alloc(pre == 1 ? 1 : 3);
        { RwSerializer w(&b); for (size_t i = 0; i < n; ++i) { put(w, it[i]); sym_assert(w.pos() <= b.size, "buffer too small"); } sym_assert(w.pos() == rl, "write position"); }
        sym_assert(b.size >= rl && memcmp(b.data, ref, rl) == 0, "encoding differs from the big-endian format");
        if (b.size) { RwSerializer r(b); for (size_t i = 0; i < n; ++i) get(r, it[i], true); sym_assert(r.pos() == rl, "read position"); }
        b.free();
    } else {
        mfs_reset(); mfs_mkdirs("/d");
        { FileOpsPosix ops_; FileOps& ops = ops_; FileHandle* fh = nullptr;
        sym_assert(ops.open(&fh, "/d/f").ok(), "open");
        bool app = sym_choose(0, 1, "append");
        { RwSerializer w(&ops, fh, app); for (size_t i = 0; i < n; ++i) put(w, it[i]); if (!app) sym_assert(w.pos() == rl, "write position"); }
        sym_assert((size_t)mfs_size("/d/f") == rl && memcmp(mfs_data("/d/f"), ref, rl) == 0, "encoding differs from the big-endian format");
        { RwSerializer r(&ops, fh); for (size_t i = 0; i < n; ++i) get(r, it[i], false); sym_assert(r.pos() == rl && r.size() == rl, "read position");
          Status s; r.getU8(s); sym_assert(!s.ok() && r.pos() == rl, "read past the end of the file succeeds"); }
        ops.close(fh); delete fh; }
        mfs_reset();
    }
    if (mode < 2) sym_assert(sym_live_heap() == base, "memory leaked");
    sym_cover(mode + 1);
}
static void hostile() {
    size_t L = sym_tier() ? 12 : 7;
    uint8_t* buf = new uint8_t[L];
    sym_bytes(buf, L, "content");
    RwSerializer r(buf, L);
    size_t p = sym_choose(0, L, "start");
    r.pos(p);
    for (int i = 0; i < (sym_tier() ? 3 : 2); ++i) {
        size_t at = r.pos();
        sym_assert(at <= L, "position behind the end");
        Status s; uint64_t v = 0, e = 0; size_t w = 0;
        int k = (int)sym_choose(0, 5, "read");
        if (k < 4) {
            w = 8 >> k;
            v = k == 0 ? r.getU64(s) : k == 1 ? r.getU32(s) : k == 2 ? r.getU16(s) : r.getU8(s);
            sym_assert(s.ok() == (at + w <= L), "a read must succeed exactly if it stays inside the buffer");
            if (s.ok()) { for (size_t j = 0; j < w; ++j) e = e << 8 | buf[at + j]; sym_assert(v == e, "wrong number"); }
            sym_assert(r.pos() == (s.ok() ? at + w : at), "position after a read");
        } else if (k == 4) {
            uint8_t o[16]; w = sym_choose(0, L + 1, "n");
            s = r.get(o, w);
            sym_assert(s.ok() == (at + w <= L), "a read must succeed exactly if it stays inside the buffer");
            if (s.ok()) sym_assert(memcmp(o, buf + at, w) == 0, "wrong bytes");
            sym_assert(r.pos() == (s.ok() ? at + w : at), "position after a read");
        } else {
            SizedBuf o;
            // a size of 512 and more only makes the allocation larger
            if (at + 4 <= L) sym_assume(buf[at] == 0 && buf[at + 1] == 0 && buf[at + 2] < 2);
            bool clone = sym_choose(0, 1, "clone");
            s = r.getSb(o, clone);
            if (at + 4 > L) sym_assert(!s.ok() && o.size == 0 && r.pos() == at, "buffer header outside");
            else {
                size_t n = (size_t)buf[at + 2] << 8 | buf[at + 3];
                sym_assert(s.ok() == (at + 4 + n <= L), "a buffer must be returned exactly if it lies inside");
                if (s.ok()) sym_assert(o.size == n && (n == 0 || memcmp(o.data, buf + at + 4, n) == 0) && r.pos() == at + 4 + n, "wrong buffer");
                else sym_assert(o.size == 0 && r.pos() <= L, "partial buffer");
            }
            if (clone) o.free();
        }
        if (!s.ok()) break;
    }
    delete[] buf;
    sym_cover(4);
}
static void helpers() {
    uint8_t m[32], z[32]; memset(m, 0x5a, sizeof m);
    uint64_t start = sym_range(0, 3, "start"), off = sym_range(0, 3, "off"), o = off;
    uint64_t v = sym_u64("v");
    append_mem_64(m, v, start, o); append_mem_32(m, (uint32_t)v, start, o); append_mem_16(m, (uint16_t)v, start, o); append_mem_8(m, (uint8_t)v, start, o);
    sym_assert(o == off + 15, "offset");
    uint64_t a; uint32_t b; uint16_t c; uint8_t d; o = off;
    read_mem_64(m, a, start, o); read_mem_32(m, b, start, o); read_mem_16(m, c, start, o); read_mem_8(m, d, start, o);
    sym_assert(o == off + 15 && a == v && b == (uint32_t)v && c == (uint16_t)v && d == (uint8_t)v, "memory round trip");
    for (int i = 0; i < 8; ++i) sym_assert(m[start + off + i] == (uint8_t)(v >> (56 - 8 * i)), "big-endian");
    for (size_t i = 0; i < start + off; ++i) sym_assert(m[i] == 0x5a, "wrote before the place");
    for (size_t i = start + off + 15; i < 32; ++i) sym_assert(m[i] == 0x5a, "wrote behind the place");
    mfs_reset(); mfs_mkdirs("/d");
    { FileOpsPosix ops_; FileOps& ops = ops_; FileHandle* fh = nullptr;
    ops.open(&fh, "/d/f");
    memset(z, 0, sizeof z); o = off;
    Status s = append_file_64(&ops, fh, v, start, o); sym_assert(s.ok(), "w");
    s = append_file_32(&ops, fh, (uint32_t)v, start, o); s = append_file_16(&ops, fh, (uint16_t)v, start, o); s = append_file_8(&ops, fh, (uint8_t)v, start, o);
    sym_assert(o == off + 15 && (uint64_t)mfs_size("/d/f") == start + off + 15, "file offset");
    memcpy(z + start + off, m + start + off, 15);
    sym_assert(memcmp(mfs_data("/d/f"), z, start + off + 15) == 0, "file content");
    o = off; a = 0; b = 0; c = 0; d = 0;
    s = read_file_64(&ops, fh, a, start, o); s = read_file_32(&ops, fh, b, start, o); s = read_file_16(&ops, fh, c, start, o); s = read_file_8(&ops, fh, d, start, o);
    sym_assert(s.ok() && o == off + 15 && a == v && b == (uint32_t)v && c == (uint16_t)v && d == (uint8_t)v, "file round trip");
    s = read_file_8(&ops, fh, d, start, o);
    sym_assert(!s.ok() && o == off + 15, "read past the end of the file moves the offset");
    ops.close(fh); delete fh; }
    mfs_reset();
    sym_cover(5);
}
HARNESS { uint64_t a = sym_arg(); if (a < 3) roundtrip((int)a); else if (a == 3) hostile(); else helpers(); }
