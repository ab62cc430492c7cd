//@ src internal_helper.cc fileops_posix.cc murmurhash3.cc
//@ models mfs
//@ run C13 quick args=0-5 time=80 cover=1 -- a file and its backup, 0 to 6 bytes, contents symbolic: backup and restore by copying (arg 0), from memory with a prefix skipped (1), and incrementally through an open handle in up to three steps (2), the process dying (3), the power failing (4) or a call failing or transferring less (5) at every file-system operation; also listing, sizes and removal of files (0)
//@ run C13 thorough args=0-5 time=300 cover=1 -- as quick, up to 9 bytes and four steps
//@ assume in-memory model of the POSIX file calls (rt/mfs.cpp)
#include "sym.h"
#include "mfs.h"
#include "internal_helper.h"
#include "fileops_posix.h"
#include <cstring>
#include <algorithm>
using namespace jungle;
static const char *F = "/d/f", *B = "/d/f.bak";
static bool same(const char* p, const uint8_t* d, size_t n) { return mfs_exists(p) && mfs_size(p) == (int64_t)n && (!n || !memcmp(mfs_data(p), d, n)); }
static uint8_t X[16], Y[16], Z[16]; static size_t nx, ny, nz;
static size_t mx() { return sym_tier() ? 9 : 6; }
static void input(bool two) {
    nx = sym_choose(0, mx(), "nx"); sym_bytes(X, nx, "x");
    mfs_put(F, X, nx);
    if (two && sym_choose(0, 1, "old backup")) { ny = sym_choose(0, mx(), "ny"); sym_bytes(Y, ny, "y"); mfs_put(B, Y, ny); }
}
static void reads() {
    FileOpsPosix ops; FileOps* o = &ops;
    sym_assert(BackupRestore::restore(o, F) == Status::FILE_NOT_EXIST && !mfs_exists(F), "restore without backup");
    sym_assert(BackupRestore::backup(o, F, true) == Status::FILE_NOT_EXIST && !mfs_exists(B), "backup without file");
    input(true);
    sym_assert(FileMgr::exist(F) && !FileMgr::exist("/d/g") && FileMgr::fileSize(F) == nx && FileMgr::fileSize("/d/g") == 0, "exist and fileSize");
    sym_assert(BackupRestore::backup(o, F, sym_choose(0, 1, "fsync")), "backup fails");
    sym_assert(same(F, X, nx) && same(B, X, nx), "backup is not a copy");
    std::vector<std::string> fs; FileMgr::scan("/d", fs);
    sym_assert(std::count(fs.begin(), fs.end(), "f") == 1 && std::count(fs.begin(), fs.end(), "f.bak") == 1, "scan misses a file");
    for (auto& f : fs) sym_assert(f == "." || f == ".." || f == "f" || f == "f.bak", "scan lists a wrong name");
    sym_assert(FileMgr::dirSize("/d") == 2 * nx, "dirSize");
    nz = sym_choose(0, mx(), "nz"); sym_bytes(Z, nz, "z"); mfs_put(F, Z, nz);
    sym_assert(BackupRestore::restore(o, F), "restore fails");
    sym_assert(same(F, X, nx) && same(B, X, nx), "restored file differs from the backup");
    sym_assert(!FileMgr::remove(F) && !mfs_exists(F) && mfs_exists(B) && !FileMgr::remove(F), "remove");
    sym_assert(!FileMgr::mkdir("/d/e") && FileMgr::exist("/d/e") && FileMgr::dirSize("/d", true) == nx, "mkdir");
    sym_assert(FileMgr::filePart("/d/f") == "f" && FileMgr::filePart("f") == "f" && FileMgr::filePart("/d/") == "", "filePart");
    sym_assert(mfs_open_fds() == 0, "a descriptor is leaked");
    sym_cover(1);
}
static void skipped() {
    FileOpsPosix ops; FileOps* o = &ops; input(true);
    nz = sym_choose(0, mx(), "nz"); sym_bytes(Z, nz, "z");
    size_t len = sym_choose(0, nz, "length"), skip = sym_choose(0, len, "skip");
    if (skip) { sym_assume(ny >= skip); for (size_t i = 0; i < skip; ++i) sym_assume(Y[i] == Z[i]); }   // what is skipped is there already
    SizedBuf ctx(nz, Z);
    sym_assert(BackupRestore::backup(o, F, ctx, len, skip, sym_choose(0, 1, "fsync")), "backup fails");
    sym_assert(same(B, Z, len), "backup differs from the memory"); sym_assert(same(F, X, nx), "backup changed the file");
    sym_assert(BackupRestore::restore(o, F) && same(F, Z, len), "restored file differs");
    sym_assert(mfs_open_fds() == 0, "a descriptor is leaked"); sym_cover(1);
}
static void incr() {
    FileOpsPosix ops; FileOps* o = &ops; FileHandle* h = nullptr;
    if (sym_choose(0, 1, "old backup")) { ny = sym_choose(0, 3, "ny"); sym_bytes(Y, ny, "y"); mfs_put(B, Y, ny); }
    size_t have = 0; SizedBuf ctx(16, Z); int n = sym_tier() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        size_t len = sym_choose(0, mx(), "length"), skip = sym_choose(0, std::min(have, len), "skip");
        sym_bytes(Z + skip, mx() - skip, "z");
        sym_assert(BackupRestore::backup(o, &h, F, ctx, len, skip, true), "backup fails");
        sym_assert(same(B, Z, len), "incremental backup differs from the memory"); have = len;
        int k = (int)sym_choose(0, 2, "between");
        if (k == 1) { FileMgr::remove(B); have = 0; }                       // somebody removed the backup
        if (k == 2) { o->close(h); delete h; h = nullptr; }                 // reopened
    }
    if (h) { o->close(h); delete h; }
    sym_assert(mfs_open_fds() == 0, "a descriptor is leaked"); sym_cover(1);
}
static void crash(int mode) {
    FileOpsPosix ops; FileOps* o = &ops; input(true); bool back = sym_choose(0, 1, "backup"), inc = back && sym_choose(0, 1, "memory");
    if (!back && !mfs_exists(B)) sym_reject();
    mfs_crash_at(sym_choose(1, 12, "at"), mode);
    Status s; FileHandle* h = nullptr;
    if (inc) { SizedBuf ctx(nx, X); s = BackupRestore::backup(o, &h, F, ctx, nx, 0, true); if (h) { o->close(h); delete h; } }
    else s = back ? BackupRestore::backup(o, F, true) : BackupRestore::restore(o, F);
    bool done = !mfs_crashed();
    if (done) { sym_assert(s, "fails without a fault"); mfs_crash_now(mode); }
    mfs_reboot();
    if (back) {
        sym_assert(same(F, X, nx), "a crash during backup damages the file");
        if (done) sym_assert(same(B, X, nx), "a finished backup is lost in a crash");
    } else {
        sym_assert(same(B, Y, ny), "a crash during restore damages the backup");
        if (done) sym_assert(same(F, Y, ny), "a finished restore is lost in a crash");
        else { sym_assert(BackupRestore::restore(o, F) && same(F, Y, ny), "a second restore does not finish the first"); }
    }
    sym_cover(1);
}
static void fault() {
    FileOpsPosix ops; FileOps* o = &ops; input(true);
    int what = (int)sym_choose(0, 2, "what");
    if (what == 1 && !mfs_exists(B)) sym_reject();
    int kind = (int)sym_choose(1, 2, "kind");
    mfs_fault_filter(kind == 2 ? MFS_OP_WRITE | MFS_OP_READ : MFS_OP_WRITE | MFS_OP_READ | MFS_OP_FSYNC | MFS_OP_TRUNC | MFS_OP_CREATE | MFS_OP_OPEN);
    uint64_t k = sym_choose(1, 10, "at"); mfs_fault(k, sym_choose(0, 1, "persistent") ? 1000 : 1, kind);
    Status s; FileHandle* h = nullptr; SizedBuf ctx(nx, X);
    if (what == 0) s = BackupRestore::backup(o, F, true);
    else if (what == 1) s = BackupRestore::restore(o, F);
    else { s = BackupRestore::backup(o, &h, F, ctx, nx, 0, true); }
    bool hit = mfs_faults_hit(); mfs_fault(0, 0, 1);
    if (h) { o->close(h); delete h; }
    if (what == 1) { sym_assert(same(B, Y, ny), "restore changes the backup"); if (s) sym_assert(same(F, Y, ny) && (!ny || mfs_durable(F)), "a failed restore is reported as success"); }
    else { sym_assert(same(F, X, nx), "backup changes the file"); if (s) sym_assert(same(B, X, nx) && (!nx || mfs_durable(B)), "a failed backup is reported as success"); }
    if (!hit) sym_assert(s, "fails without a fault");
    else if (!s) sym_cover(1);
    sym_assert(mfs_open_fds() == 0, "a descriptor is leaked");
}
HARNESS {
    mfs_reset(); mfs_mkdirs("/d");
    switch (sym_arg()) { case 0: reads(); break; case 1: skipped(); break; case 2: incr(); break; case 3: crash(MFS_KILL); break; case 4: crash(MFS_POWER); break; default: fault(); }
}
