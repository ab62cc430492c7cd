//@ src fileops_posix.cc
//@ models mfs
//@ run C08 quick args=0,1,2,3 time=60 cover=1,2,3,4 -- every sequence of 2 operations (write at offset 0..5 of 1..3 bytes, append, truncate to 0..8, reopen) then full read-back, bytes symbolic; one fault (error or short transfer, once or persistent) at any kernel call of write/read/sync/truncate/open
//@ run C08 thorough args=0,1,2,3 time=300 cover=1,2,3,4 -- as quick with 3 operations
//@ assume in-memory model of the POSIX file calls (rt/mfs.cpp)
#include "sym.h"
#include "mfs.h"
#include "fileops_posix.h"
#include <cstring>
using namespace jungle;
static uint8_t R[64]; static size_t RN;
static void rput(size_t off, const uint8_t* d, size_t n) { if (off + n > RN) { if (off > RN) memset(R + RN, 0, off - RN); RN = off + n; } memcpy(R + off, d, n); }
static void check(FileOps* o, FileHandle* h) {
    sym_assert(o->eof(h) == (cs_off_t)RN, "eof() is not the end of the written data");
    if (!RN) return;
    uint8_t* b = new uint8_t[RN];
    Status s = o->pread(h, b, RN, 0);
    sym_assert((bool)s, "reading back written data fails");
    sym_assert(!memcmp(b, R, RN), "data read differs from data written");
    size_t k = sym_range(0, RN - 1, "at");
    uint8_t c = 0;
    sym_assert((bool)o->pread(h, &c, 1, k) && c == R[k], "single byte read differs");
    sym_assert(!o->pread(h, b, RN, 1), "reading past the end reported as success");
    delete[] b;
}
static void seq() {
    FileOpsPosix impl; FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert(!o.exist("/d/f"), "absent file reported");
    sym_assert((bool)o.open(&h, "/d/f") && h && h->isOpened(), "open fails");
    sym_assert(o.exist("/d/f"), "created file not found");
    size_t n = sym_tier() ? 3 : 2;
    for (size_t i = 0; i < n; ++i) {
        uint8_t d[3]; size_t op = sym_choose(0, 3, "op");
        if (op == 0) { size_t l = sym_choose(1, 3, "len"), off = sym_range(0, 5, "off"); sym_bytes(d, l, "w"); sym_assert((bool)o.pwrite(h, d, l, off), "pwrite fails"); rput(off, d, l); }
        else if (op == 1) { size_t l = sym_choose(0, 3, "len"); sym_bytes(d, l, "a"); sym_assert((bool)o.append(h, d, l), "append fails"); rput(RN, d, l); }
        else if (op == 2) { size_t l = sym_range(0, 8, "trunc"); sym_assert((bool)o.ftruncate(h, l), "ftruncate fails"); if (l > RN) memset(R + RN, 0, l - RN); RN = l; }
        else { sym_assert((bool)o.flush(h) && (bool)o.fsync(h) && (bool)o.close(h) && !h->isOpened(), "close fails"); delete h; h = nullptr; sym_assert((bool)o.open(&h, "/d/f"), "reopen fails"); }
    }
    check(&o, h);
    sym_assert((bool)o.fsync(h), "fsync fails");
    sym_assert(mfs_durable("/d/f"), "fsync succeeded but data is not on stable storage");
    sym_assert((bool)o.close(h), "close"); delete h;
    sym_assert(mfs_open_fds() == 0, "file descriptor leaked");
    sym_cover(1);
}
static void misuse() {
    FileOpsPosix impl; FileOps& o = impl; FileHandle* h = nullptr; uint8_t b[4] = {0};
    sym_assert(!o.close(nullptr) && !o.pread(nullptr, b, 1, 0) && !o.pwrite(nullptr, b, 1, 0) && !o.append(nullptr, b, 1) && !o.flush(nullptr) && !o.fsync(nullptr) && !o.ftruncate(nullptr, 0) && o.eof(nullptr) < 0, "null handle accepted");
    sym_assert((bool)o.mkdir("/d/sub") && !o.mkdir("/d/sub"), "mkdir status");
    sym_assert(!o.open(&h, "/d/ro", FileOps::READ_ONLY) && !h, "read-only open of an absent file succeeds");
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    sym_bytes(b, 4, "b");
    sym_assert((bool)o.append(h, b, 4), "append");
    sym_assert(!o.pread(h, nullptr, 1, 0), "null destination accepted");
    sym_assert((bool)o.close(h) && !o.close(h), "double close accepted");
    sym_assert(!o.pread(h, b, 1, 0) && !o.pwrite(h, b, 1, 0) && !o.append(h, b, 1) && !o.flush(h) && !o.fsync(h) && !o.ftruncate(h, 0) && o.eof(h) < 0, "closed handle accepted");
    delete h; h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f", FileOps::READ_ONLY), "read-only open");
    uint8_t c[4];
    sym_assert((bool)o.pread(h, c, 4, 0) && !memcmp(b, c, 4), "read-only read");
    sym_assert(!o.pwrite(h, c, 1, 0) && !o.append(h, c, 1) && !o.ftruncate(h, 0), "writing through a read-only handle reported as success");
    sym_assert(mfs_size("/d/f") == 4, "read-only handle changed the file");
    delete h;   // must close
    sym_assert(mfs_open_fds() == 0, "deleting a handle leaks its descriptor");
    sym_assert((bool)o.remove("/d/f") && !o.exist("/d/f") && !o.remove("/d/f"), "remove status");
    sym_cover(2);
}
static void faults() {
    FileOpsPosix impl; FileOps& o = impl; FileHandle* h = nullptr;
    uint8_t d[8], c[8]; sym_bytes(d, 8, "d");
    sym_assert((bool)o.open(&h, "/d/f") && (bool)o.pwrite(h, d, 8, 0), "setup");
    unsigned what = (unsigned)sym_choose(0, 5, "call");
    static const uint32_t F[] = {MFS_OP_WRITE, MFS_OP_WRITE, MFS_OP_READ, MFS_OP_FSYNC, MFS_OP_TRUNC, MFS_OP_OPEN};
    mfs_fault_filter(F[what]);
    bool persistent = sym_choose(0, 1, "persistent");
    int kind = (int)sym_choose(1, 2, "kind");
    mfs_fault(1, persistent ? 1000000 : sym_choose(1, 3, "times"), kind);
    uint8_t e[5]; sym_bytes(e, 5, "e");
    Status s; FileHandle* h2 = nullptr;
    switch (what) {
    case 0: s = o.pwrite(h, e, 5, 2); break;
    case 1: s = o.append(h, e, 5); break;
    case 2: s = o.pread(h, c, 8, 0); break;
    case 3: s = o.fsync(h); break;
    case 4: s = o.ftruncate(h, 3); break;
    default: s = o.open(&h2, "/d/g"); break;
    }
    sym_assert(mfs_faults_hit() > 0, "kernel call not made");
    if (persistent) sym_assert(!s, "failed or short transfer reported as success");
    if (s) {
        mfs_fault(0, 0, 0);
        memset(R, 0, sizeof R); RN = 0; rput(0, d, 8);
        if (what == 0) rput(2, e, 5);
        if (what == 1) rput(8, e, 5);
        if (what == 4) RN = 3;
        if (what == 2) sym_assert(!memcmp(c, d, 8), "short read reported as success");
        else if (what == 3) sym_assert(mfs_durable("/d/f"), "failed fsync reported as success");
        else check(&o, h);
    }
    sym_cover(3);
}
static void big_offsets() {     // offsets and sizes beyond 4 GiB are passed through unchanged: checked on eof of a sparse file
    FileOpsPosix impl; FileOps& o = impl; FileHandle* h = nullptr;
    sym_assert((bool)o.open(&h, "/d/f"), "open");
    uint8_t b[2]; sym_bytes(b, 2, "b");
    sym_assert((bool)o.append(h, b, 2) && (bool)o.append(h, b, 1) && o.eof(h) == 3, "append");
    uint8_t c; sym_assert((bool)o.pread(h, &c, 1, 2) && c == b[0], "appended byte");
    sym_assert((bool)o.pwrite(h, b, 0, 0) && (bool)o.pread(h, nullptr, 0, 0), "empty transfer refused");
    delete h;
    sym_cover(4);
}
HARNESS {
    mfs_reset(); mfs_mkdirs("/d");
    switch (sym_arg()) { case 0: seq(); break; case 1: misuse(); break; case 2: faults(); break; default: big_offsets(); }
}
