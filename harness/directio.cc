//@ src fileops_directio.cc internal_helper.cc fileops_posix.cc crc32.cc
//@ models mfs
//@ run C09 quick args=0-6 time=60 cover=1,2,3,4,5,6,7 -- transfer unit 16 bytes, buffer 32; every sequence of 3 operations out of {append (12 lengths around the unit and buffer boundaries), flush, sync, reopen, truncate to any length}, content symbolic, then full read-back, starting with an empty file or with a file of every size up to 40; every read (offset, length) of files of 1..40 bytes; every fault (error / short transfer, once / 3 times / persistent) of the kernel write, read, fsync and truncate calls; file sizes 1..2^62 for eof; two instances with different buffers in one thread
//@ run C09 thorough args=0-6 time=600 cover=1,2,3,4,5,6,7 -- as quick with 4 operations and every append length 1..40, reads of files up to 100 bytes
//@ assume in-memory model of the POSIX file calls with O_DIRECT alignment enforcement (rt/mfs.cpp)
#include "sym.h"
#include "mfs.h"
#include "fileops_directio.h"
#include <cstring>
using namespace jungle;
static const size_t A = 16, B = 32;
static uint8_t R[512]; static size_t RN; static size_t gSync;   // leading bytes known to be synced
// Precondition: everything appended has been flushed.
static void check(FileOps& o, FileHandle* h, bool rd) {
    cs_off_t e = o.eof(h);
    sym_assert(e >= (cs_off_t)RN, "flushed data is not in the file");
    sym_assert((size_t)e < RN + A + B, "file grew beyond the padded end of the data");
    uint8_t* b = new uint8_t[e + 1];
    if (e) {
        sym_assert((bool)o.pread(h, b, e, 0), "reading back the file fails");
        sym_assert(!memcmp(b, R, RN), "data read differs from data appended");
        size_t k = RN;
        if ((size_t)e > RN && RN % A) {
            // reader recognises the padding by its header
            if ((size_t)e - RN >= 8) { sym_assert(b[RN] == 0xfe, "padding header missing behind the data"); k = RN + 1; }
            else sym_fail("padding too short for its header");
        }
        for (; k < (size_t)e; ++k) sym_assert(b[k] == 0, "padding is not zero");
        if (rd) {
            size_t off = sym_range(0, e - 1, "off");
            size_t len = sym_range(1, e - off, "rlen");
            uint8_t* c = new uint8_t[len];
            sym_assert((bool)o.pread(h, c, len, off), "read inside the file fails");
            sym_assert(!memcmp(c, b + off, len), "read at an offset returns other bytes");
            sym_assert(!o.pread(h, c, len, e - len + 1), "read past the end reported as success");
            delete[] c;
        }
    }
    delete[] b;
}
static void app(FileOps& o, FileHandle* h, size_t l) {
    uint8_t* d = new uint8_t[l + 1];
    sym_bytes(d, l, "a");
    sym_assert((bool)o.append(h, d, l), "append fails");
    memcpy(R + RN, d, l); RN += l;
    delete[] d;
}
static void refile(FileOps& o, FileHandle* h) { RN = o.eof(h); if (RN) o.pread(h, R, RN, 0); }
static size_t alen() {
    static const uint8_t T[] = {1, 7, 8, 9, 15, 16, 17, 25, 31, 32, 33, 40};
    if (sym_tier()) return sym_range(1, 40, "len");
    return T[sym_choose(0, sizeof T - 1, "len")];
}
static void reads() {
    FileOpsDirectIO impl(nullptr, B, A); FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    app(o, h, sym_choose(1, sym_tier() ? 100 : 40, "len")); sym_assert((bool)o.flush(h), "flush");
    check(o, h, true);
    delete h;
    sym_cover(6);
}
static void seq(bool existing) {
    if (existing) { RN = sym_range(0, 40, "size0"); sym_bytes(R, RN, "f"); mfs_put("/d/f", R, RN); gSync = RN; }
    FileOpsDirectIO impl(nullptr, B, A); FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f") && h->isOpened(), "open");
    size_t n = 2 + sym_tier();
    if (!existing) app(o, h, sym_range(1, 40, "len0"));
    for (size_t i = 0; i < n; ++i) {
        switch (sym_choose(0, 4, "op")) {
        case 0: app(o, h, alen()); break;
        case 1: sym_assert((bool)o.flush(h), "flush"); if (i + 1 < n) check(o, h, false); break;
        case 2: sym_assert((bool)o.flush(h) && (bool)o.fsync(h), "sync"); sym_assert(mfs_durable("/d/f") || gSync >= RN, "synced data is not on stable storage"); gSync = RN; break;
        case 3: sym_assert((bool)o.close(h) && !h->isOpened(), "close"); delete h; h = nullptr;
                sym_assert((bool)o.open(&h, "/d/f"), "reopen"); check(o, h, false); refile(o, h); gSync = RN; break;
        default: {
            sym_assert((bool)o.flush(h), "flush");
            size_t e = o.eof(h), l = sym_range(0, RN + 20, "trunc"); sym_assume(l <= RN || l >= e);
            sym_assert((bool)o.ftruncate(h, l), "truncate");
            if (l < e) { RN = l; if (gSync > l) gSync = l; sym_assert(o.eof(h) == (cs_off_t)l, "length after truncation"); } else sym_assert(o.eof(h) == (cs_off_t)e, "truncation to more than the size changed the size");
        } }
    }
    sym_assert((bool)o.flush(h), "flush");
    check(o, h, false);
    sym_assert((bool)o.fsync(h), "fsync");
    sym_assert(mfs_durable("/d/f") || gSync >= RN, "synced data is not on stable storage"); gSync = RN;
    sym_assert((bool)o.close(h), "close"); delete h;
    sym_assert(mfs_open_fds() == 0, "descriptor leaked");
    sym_cover(existing ? 7 : 1);
}
static void misuse() {
    FileOpsDirectIO impl(nullptr, B, A); FileOps& o = impl; FileHandle* h = nullptr; uint8_t b[4] = {0};
    sym_assert(!o.close(nullptr) && !o.pread(nullptr, b, 1, 0) && !o.append(nullptr, b, 1) && !o.flush(nullptr) && !o.fsync(nullptr) && !o.ftruncate(nullptr, 0) && o.eof(nullptr) < 0, "null handle accepted");
    sym_assert((bool)o.mkdir("/d/sub") && !o.mkdir("/d/sub"), "mkdir status");
    sym_assert(!o.open(&h, "/d/ro", FileOps::READ_ONLY) && !h, "read-only open of an absent file succeeds");
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    sym_bytes(b, 4, "b");
    sym_assert(!o.pwrite(h, b, 1, 0), "random write claimed to work");
    sym_assert((bool)o.append(h, b, 4), "append");
    sym_assert(!o.pread(h, nullptr, 1, 0) && !o.pread(h, b, 1, -1) && !o.ftruncate(h, -1), "invalid parameters accepted");
    sym_assert((bool)o.close(h) && !o.close(h), "double close accepted");
    sym_assert(!o.pread(h, b, 1, 0) && !o.append(h, b, 1) && !o.flush(h) && !o.fsync(h) && !o.ftruncate(h, 0) && o.eof(h) < 0, "closed handle accepted");
    delete h; h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f", FileOps::READ_ONLY), "read-only open");
    uint8_t c[4];
    sym_assert((bool)o.pread(h, c, 4, 0) && !memcmp(b, c, 4), "read-only read");
    delete h;
    sym_assert(mfs_open_fds() == 0, "deleting a handle leaks its descriptor");
    sym_assert((bool)o.remove("/d/f") && !o.exist("/d/f") && !o.remove("/d/f"), "remove status");
    sym_cover(2);
}
static void faults() {
    FileOpsDirectIO impl(nullptr, B, A); FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    app(o, h, sym_range(0, 33, "len0"));
    sym_assert((bool)o.flush(h), "flush");
    unsigned what = (unsigned)sym_choose(0, 4, "call");
    static const uint32_t F[] = {MFS_OP_WRITE, MFS_OP_WRITE, MFS_OP_READ, MFS_OP_FSYNC, MFS_OP_TRUNC};
    size_t l = what < 2 ? sym_range(1, what ? B - 1 : 40, "len") : 0;
    if (what == 1) app(o, h, l);
    if (what == 2 || what == 4) sym_assume(RN > 0);
    mfs_fault_filter(F[what]);
    bool persistent = sym_choose(0, 1, "persistent");
    mfs_fault(1, persistent ? 1000000 : sym_choose(1, 3, "times"), (int)sym_choose(1, 2, "kind"));
    Status s; size_t old = RN; uint8_t c[160];
    uint8_t* d = R + RN;
    switch (what) {
    case 0: sym_bytes(d, l, "e"); s = o.append(h, d, l); if (s) RN += l; break;
    case 1: s = o.flush(h); break;
    case 2: s = o.pread(h, c, RN, 0); break;
    case 3: s = o.fsync(h); break;
    default: s = o.ftruncate(h, RN - 1); if (s) RN--; break;
    }
    uint64_t hit = mfs_faults_hit();
    if (persistent && hit) sym_assert(!s, "failed or short transfer reported as success");
    mfs_fault(0, 0, 0);
    if (what == 2) { if (s) sym_assert(!memcmp(c, R, RN), "failed read reported as success"); }
    else if (what == 0 || what == 1) {
        if (s || what == 1) { sym_assert((bool)o.flush(h), "flush after a transient error"); check(o, h, false); }   // failed flush keeps the data
    }
    else if (what == 3) { if (!s) sym_assert((bool)o.fsync(h), "fsync after a transient error"); sym_assert(mfs_durable("/d/f"), "fsync success without durability"); }
    else if (s) check(o, h, false);
    (void)old;
    delete h;
    sym_cover(3);
}
static void big() {
    FileOpsDirectIO impl(nullptr, B, A); FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    uint64_t v = sym_range(1, 1ULL << 62, "size");
    mfs_lseek_end(v);
    sym_assert(o.eof(h) == (cs_off_t)v, "file size misreported");
    mfs_lseek_end(0);
    delete h;
    sym_cover(4);
}
static void two() {
    size_t b1 = 16 * sym_choose(1, 4, "buf1"), b2 = 16 * sym_choose(1, 4, "buf2");
    FileOpsDirectIO i1(nullptr, b1, A), i2(nullptr, b2, A); FileHandle *h1 = nullptr, *h2 = nullptr; FileOps &o1 = i1, &o2 = i2;
    uint8_t d[80]; sym_bytes(d, 80, "d");
    sym_assert((bool)o1.open(&h1, "/d/f") && (bool)o2.open(&h2, "/d/g"), "open");
    sym_assert((bool)o1.append(h1, d, 70) && (bool)o1.flush(h1) && (bool)o2.append(h2, d + 1, 75) && (bool)o2.flush(h2), "write");
    uint8_t c[80];
    sym_assert((bool)o1.pread(h1, c, 70, 0) && !memcmp(c, d, 70), "first instance");
    sym_assert((bool)o2.pread(h2, c, 75, 0) && !memcmp(c, d + 1, 75), "second instance");
    sym_assert((bool)o1.pread(h1, c, 33, 3) && !memcmp(c, d + 3, 33), "first instance again");
    delete h1; delete h2;
    sym_cover(5);
}
HARNESS {
    mfs_reset(); mfs_mkdirs("/d"); mfs_align(A);
    switch (sym_arg()) { case 0: seq(false); break; case 6: seq(true); break; case 1: misuse(); break; case 2: faults(); break; case 3: big(); break; case 5: reads(); break; default: two(); }
}
