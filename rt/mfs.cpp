// In-memory POSIX file system (see mfs.h).  Runs inside the engine and natively.
#include "mfs.h"
#include "sym.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>

namespace {
struct Pend { Pend* next; uint64_t off; uint64_t len; uint8_t* d; bool trunc; };
struct Ino {
    bool dir; int links; int fds;
    uint8_t* d; uint64_t size, cap;         // what the kernel has
    uint8_t* dd; uint64_t dsize;            // what the disk certainly has
    Pend *ph, *pt;                          // changes since, in order
    uint8_t* fz; uint64_t fzsize; bool inFz;// surviving image once frozen
};
struct Ent { char path[160]; Ino* ino; };
struct Fd { Ino* ino; uint64_t pos; int flags; };
const int MAXE = 96, MAXF = 64;
Ent gE[MAXE]; int nE = 0;
Ent gZ[MAXE]; int nZ = 0;                   // frozen directory
Fd gF[MAXF];
uint64_t gOps = 0, gCrashOp = 0; int gCrashMode = 0; bool gDead = false;
uint64_t gFaultAt = 0, gFaultN = 0, gFaultOps = 0, gFaultHits = 0; int gFaultKind = 0; uint32_t gFaultMask = 0;
int gCoarse = 0, gVictim = -1; bool gKeep = false;
uint64_t gHeap = 0, gFsyncs = 0;

void* al(size_t n) { gHeap++; return calloc(1, n ? n : 1); }
void fr(void* p) { if (p) { gHeap--; free(p); } }
void norm(const char* p, char* o) {         // collapse //, /./ and a trailing slash
    size_t n = strlen(p);
    if (p[0] == '/' && n > 1 && n < 158 && p[n - 1] != '/' && !strstr(p, "//") && !strstr(p, "/.")) { strcpy(o, p); return; }
    n = 0;
    if (p[0] != '/') o[n++] = '/';
    for (; *p; ++p) {
        if (*p == '/' && n && o[n - 1] == '/') continue;
        if (*p == '.' && n && o[n - 1] == '/' && (p[1] == '/' || !p[1])) continue;
        if (n < 158) o[n++] = *p;
    }
    while (n > 1 && o[n - 1] == '/') n--;
    o[n] = 0;
}
int findE(Ent* t, int n, const char* p) {
    for (int i = 0; i < n; ++i) if (!strcmp(t[i].path, p)) return i;
    return -1;
}
Ino* look(const char* p) {
    char b[160]; norm(p, b);
    int i = findE(gE, nE, b);
    return i < 0 ? nullptr : gE[i].ino;
}
bool parentOk(const char* np) {
    char b[160]; strcpy(b, np);
    char* s = strrchr(b, '/');
    if (!s || s == b) return true;
    *s = 0;
    int i = findE(gE, nE, b);
    return i >= 0 && gE[i].ino->dir;
}
Ino* mk(const char* np, bool dir) {
    if (nE >= MAXE) { sym_fail("mfs: too many files"); return nullptr; }
    Ino* x = (Ino*)al(sizeof(Ino));
    x->dir = dir; x->links = 1;
    strcpy(gE[nE].path, np); gE[nE].ino = x; nE++;
    return x;
}
void dropPend(Ino* x) {
    while (x->ph) { Pend* p = x->ph; x->ph = p->next; fr(p->d); fr(p); }
    x->pt = nullptr;
}
void put(Ino* x) {
    if (x->links > 0 || x->fds > 0 || x->inFz) return;
    dropPend(x); fr(x->d); fr(x->dd); fr(x->fz); fr(x);
}
void unlinkAt(int i) {
    Ino* x = gE[i].ino;
    for (int j = i; j + 1 < nE; ++j) gE[j] = gE[j + 1];
    nE--;
    x->links--; put(x);
}
void grow(Ino* x, uint64_t n) {
    if (n <= x->cap) return;
    uint64_t c = x->cap ? x->cap : 256;
    while (c < n) c *= 2;
    uint8_t* nd = (uint8_t*)al(c);
    memcpy(nd, x->d, x->size);
    fr(x->d); x->d = nd; x->cap = c;
}
void setSize(Ino* x, uint64_t n) {
    grow(x, n);
    if (n > x->size) memset(x->d + x->size, 0, n - x->size);
    x->size = n;
}
void wr(Ino* x, uint64_t off, const void* b, uint64_t n) {
    if (off + n > x->size) setSize(x, off + n);
    memcpy(x->d + off, b, n);
}
void pend(Ino* x, bool trunc, uint64_t off, const void* b, uint64_t n) {
    if (gDead) return;
    Pend* p = (Pend*)al(sizeof(Pend));
    p->trunc = trunc; p->off = off; p->len = n;
    if (n) { p->d = (uint8_t*)al(n); memcpy(p->d, b, n); }
    if (x->pt) x->pt->next = p; else x->ph = p;
    x->pt = p;
}
// surviving image of one file
void freezeFile(Ino* x, int mode) {
    if (x->inFz) return;
    x->inFz = true;
    if (mode == MFS_KILL) {
        x->fz = (uint8_t*)al(x->size); if (x->size) memcpy(x->fz, x->d, x->size); x->fzsize = x->size;
        return;
    }
    uint64_t cap = x->dsize, n = 0;
    for (Pend* p = x->ph; p; p = p->next) { n++; if (p->off + p->len > cap) cap = p->off + p->len; }
    x->fz = (uint8_t*)al(cap);
    if (x->dsize) memcpy(x->fz, x->dd, x->dsize);
    x->fzsize = x->dsize;
    // the first k of the unsynced changes reached the disk, the last of them possibly only in part
    uint64_t k = 0, i = 0;
    bool pick = !gCoarse || (gVictim >= 0 && x == gE[gVictim].ino);
    if (pick && gCoarse >= 2 && n > 2) { int c = sym_choose(0, 2, "survive"); k = c == 0 ? 1 : c == 1 ? n / 2 : n - 1; }
    else if (pick) k = n ? sym_choose(0, n, "survive") : 0; else k = gKeep ? n : 0;
    for (Pend* p = x->ph; p && i < k; p = p->next, ++i) {
        uint64_t len = p->len;
        if (pick && !p->trunc && i + 1 == k && len > 1) {
            if (gCoarse >= 2) len = k > 1 && k < n ? len / 2 : len; else if (gCoarse) { if (sym_choose(0, 1, "torn")) len = len / 2; } else
            switch (sym_choose(0, 3, "torn")) {
            case 1: len = 1; break;
            case 2: len = len / 2; break;
            case 3: len = len - 1; break;
            default: break;
            }
        }
        if (p->trunc) {
            if (p->off > x->fzsize) memset(x->fz + x->fzsize, 0, p->off - x->fzsize);
            x->fzsize = p->off;
        } else {
            if (p->off > x->fzsize) memset(x->fz + x->fzsize, 0, p->off - x->fzsize);
            memcpy(x->fz + p->off, p->d, len);
            if (p->off + len > x->fzsize) x->fzsize = p->off + len;
        }
    }
}
void freeze(int mode) {
    if (gDead) return;
    nZ = 0;
    gVictim = -1;
    if (mode == MFS_POWER && gCoarse) {      // everything unsynced is lost, or nothing, or that and a part of the changes of one file
        int cand[MAXE], n = 0;
        for (int i = 0; i < nE; ++i) if (!gE[i].ino->dir && gE[i].ino->ph) cand[n++] = i;
        if (n) { gKeep = sym_choose(0, 1, "kept"); gVictim = cand[sym_choose(0, n - 1, "victim")]; }
    }
    for (int i = 0; i < nE; ++i) { gZ[nZ++] = gE[i]; }
    for (int i = 0; i < nZ; ++i) if (!gZ[i].ino->dir) freezeFile(gZ[i].ino, mode);
    for (int i = 0; i < nZ; ++i) gZ[i].ino->inFz = true;
    gDead = true;
}
// counts a mutating operation; true when the crash happens in it
bool op() {
    gOps++;
    return gCrashOp && gOps == gCrashOp && !gDead;
}
// 0 none, 1 error, 2 short
int fault(uint32_t kind) {
    if (!gFaultN || !(gFaultMask & kind)) return 0;
    gFaultOps++;
    if (gFaultOps >= gFaultAt && gFaultOps < gFaultAt + gFaultN) { gFaultHits++; return gFaultKind; }
    return 0;
}
Fd* fdOf(int fd) { return fd >= 3 && fd < MAXF && gF[fd].ino ? &gF[fd] : nullptr; }
uint64_t SECT = 512; uint64_t gEofOver;
bool badAlign(Fd* f, const void* b, uint64_t n, uint64_t off) {
#ifdef O_DIRECT
    if (!(f->flags & O_DIRECT)) return false;
    return ((uintptr_t)b % SECT) || (n % SECT) || (off % SECT);
#else
    return false;
#endif
}
struct MDir { int n, pos; char names[MAXE + 2][64]; unsigned char t[MAXE + 2]; dirent de; };
}

extern "C" {
void mfs_reset() {
    for (int i = 0; i < MAXF; ++i) gF[i].ino = nullptr;
    gCoarse = 0; SECT = 512; gEofOver = 0; nE = nZ = 0; gOps = 0; gCrashOp = 0; gDead = false; gFaultN = 0; gFaultHits = 0; gFsyncs = 0;
    mk("/", true);
}
void mfs_coarse(int c) { gCoarse = c; }
void mfs_align(uint64_t a) { SECT = a; }
void mfs_lseek_end(uint64_t v) { gEofOver = v; }
static void ensure() { if (!nE) mk("/", true); }
void mfs_mkdirs(const char* path) {
    ensure();
    char b[160]; norm(path, b);
    for (size_t i = 1; ; ++i) {
        if (b[i] == '/' || !b[i]) {
            char c = b[i]; b[i] = 0;
            if (findE(gE, nE, b) < 0) mk(b, true);
            b[i] = c;
            if (!c) break;
        }
    }
}
uint64_t mfs_ops() { return gOps; }
void mfs_crash_at(uint64_t k, int mode) { gCrashOp = k ? gOps + k : 0; gCrashMode = mode; }
int mfs_crashed() { return gDead; }
void mfs_crash_now(int mode) { freeze(mode); }
void mfs_reboot() {
    for (int i = 0; i < MAXF; ++i) if (gF[i].ino) { gF[i].ino->fds = 0; gF[i].ino = nullptr; }
    if (gDead) {
        for (int i = 0; i < nE; ++i) gE[i].ino->links = 0;
        for (int i = 0; i < nZ; ++i) {
            Ino* x = gZ[i].ino;
            gE[i] = gZ[i];
            x->links = 1; x->inFz = false;
            if (x->dir) continue;
            fr(x->d); x->d = x->fz; x->size = x->cap = x->fzsize; x->fz = nullptr;
        }
        nE = nZ; nZ = 0;
    }
    for (int i = 0; i < nE; ++i) {          // what is there after the restart is durable
        Ino* x = gE[i].ino;
        if (x->dir) continue;
        dropPend(x); fr(x->dd);
        x->dd = (uint8_t*)al(x->size); if (x->size) memcpy(x->dd, x->d, x->size); x->dsize = x->size;
    }
    gDead = false; gCrashOp = 0; gFaultN = 0;
}
void mfs_fault(uint64_t k, uint64_t count, int kind) { gFaultAt = k; gFaultN = count; gFaultKind = kind; gFaultOps = 0; gFaultHits = 0; if (!gFaultMask) gFaultMask = 255; }
void mfs_fault_filter(uint32_t m) { gFaultMask = m; }
uint64_t mfs_faults_hit() { return gFaultHits; }
int mfs_exists(const char* p) { return look(p) != nullptr; }
int64_t mfs_size(const char* p) { Ino* x = look(p); return x ? (int64_t)x->size : -1; }
uint8_t* mfs_data(const char* p) { Ino* x = look(p); return x ? x->d : nullptr; }
void mfs_put(const char* p, const void* d, size_t n) {
    ensure();
    Ino* x = look(p);
    if (!x) { char b[160]; norm(p, b); x = mk(b, false); }
    dropPend(x); x->size = 0; wr(x, 0, d, n);
    fr(x->dd); x->dd = (uint8_t*)al(n); if (n) memcpy(x->dd, d, n); x->dsize = n;
}
void mfs_resize(const char* p, size_t n) { Ino* x = look(p); if (x) setSize(x, n); }
size_t mfs_list(const char* dir, char names[][64], size_t max) {
    char b[160]; norm(dir, b);
    size_t l = strlen(b), n = 0;
    if (l == 1) l = 0;
    for (int i = 0; i < nE && n < max; ++i)
        if (!strncmp(gE[i].path, b, l) && gE[i].path[l] == '/' && gE[i].path[l + 1] && !strchr(gE[i].path + l + 1, '/'))
            strcpy(names[n++], gE[i].path + l + 1);
    return n;
}
uint64_t mfs_heap() { return gHeap; }
int mfs_open_fds() { int n = 0; for (int i = 3; i < MAXF; ++i) if (gF[i].ino) n++; return n; }
int mfs_durable(const char* p) { Ino* x = look(p); return x && !x->ph; }
uint64_t mfs_nfsync() { return gFsyncs; }

int __wrap_open(const char* path, int flags, ...) {
    ensure();
    char b[160]; norm(path, b);
    if (fault(MFS_OP_OPEN)) { errno = EIO; return -1; }
    int i = findE(gE, nE, b);
    if (i < 0) {
        if (!(flags & O_CREAT) || !parentOk(b)) { errno = ENOENT; return -1; }
        if (fault(MFS_OP_CREATE)) { errno = ENOSPC; return -1; }
        bool c = op();
        if (c && (gCoarse || sym_choose(0, 1, "created") == 0)) freeze(gCrashMode);
        mk(b, false);
        i = nE - 1;
        if (c) freeze(gCrashMode);
    } else if (gE[i].ino->dir) { errno = EISDIR; return -1; }
    if (flags & O_TRUNC) { gE[i].ino->size = 0; pend(gE[i].ino, true, 0, nullptr, 0); }
    for (int f = 3; f < MAXF; ++f) if (!gF[f].ino) {
        gF[f].ino = gE[i].ino; gF[f].pos = 0; gF[f].flags = flags;
        gE[i].ino->fds++;
        return f;
    }
    errno = EMFILE; return -1;
}
int __wrap_close(int fd) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    Ino* x = f->ino; f->ino = nullptr;
    x->fds--; put(x);
    return 0;
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t off) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    if (off < 0 || badAlign(f, b, n, off)) { errno = EINVAL; return -1; }
    int k = fault(MFS_OP_READ);
    if (k == 1) { errno = EIO; return -1; }
    if ((uint64_t)off >= f->ino->size) return 0;
    uint64_t m = f->ino->size - off < n ? f->ino->size - off : n;
    if (k == 2) m /= 2;
    memcpy(b, f->ino->d + off, m);
    return m;
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t off) {
    Fd* f = fdOf(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (off < 0 || badAlign(f, b, n, off)) { errno = EINVAL; return -1; }
    int k = fault(MFS_OP_WRITE);
    if (k == 1) { errno = ENOSPC; return -1; }
    if (k == 2) n /= 2;
    if (!n) return 0;
    if (op()) {
        // killed inside write(): any prefix of it may have been applied
        uint64_t m = n;
        if (gCoarse) m = gCrashMode == MFS_KILL ? 0 : n;
        else if (gCrashMode == MFS_KILL) switch (sym_choose(0, 3, "partial")) {
            case 0: m = 0; break; case 1: m = n / 2; break; case 2: m = n - 1; break; default: break; }
        if (m) { wr(f->ino, off, b, m); pend(f->ino, false, off, b, m); }
        freeze(gCrashMode);
    }
    wr(f->ino, off, b, n);
    pend(f->ino, false, off, b, n);
    return n;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    ssize_t r = __wrap_pread(fd, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->flags & O_APPEND) f->pos = f->ino->size;
    ssize_t r = __wrap_pwrite(fd, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
off_t __wrap_lseek(int fd, off_t off, int wh) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    if (gEofOver && wh == SEEK_END) return gEofOver;
    uint64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : f->ino->size + off;
    f->pos = p;
    return p;
}
int __wrap_fsync(int fd) {
    Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    if (fault(MFS_OP_FSYNC)) { errno = EIO; return -1; }
    gFsyncs++;
    if (op()) freeze(gCrashMode);
    if (!gDead) {
        Ino* x = f->ino;
        dropPend(x); fr(x->dd);
        x->dd = (uint8_t*)al(x->size); if (x->size) memcpy(x->dd, x->d, x->size); x->dsize = x->size;
    }
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
    Fd* f = fdOf(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (n < 0) { errno = EINVAL; return -1; }
    if (fault(MFS_OP_TRUNC)) { errno = EIO; return -1; }
    bool c = op();
    if (c && gCrashMode == MFS_KILL && sym_choose(0, 1, "truncated") == 0) freeze(gCrashMode);
    setSize(f->ino, n);
    pend(f->ino, true, n, nullptr, 0);
    if (c) freeze(gCrashMode);
    return 0;
}
int __wrap_unlink(const char* p) {
    char b[160]; norm(p, b);
    int i = findE(gE, nE, b);
    if (i < 0) { errno = ENOENT; return -1; }
    if (fault(MFS_OP_UNLINK)) { errno = EIO; return -1; }
    bool c = op();
    if (c && sym_choose(0, 1, "unlinked") == 0) freeze(gCrashMode);
    unlinkAt(i);
    if (c) freeze(gCrashMode);
    return 0;
}
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_rmdir(const char* p) { return __wrap_unlink(p); }
static void renamePrefix(const char* a, const char* b) {
    size_t l = strlen(a);
    for (int i = 0; i < nE; ++i)
        if (!strncmp(gE[i].path, a, l) && (gE[i].path[l] == '/' || !gE[i].path[l])) {
            char t[160]; strcpy(t, b); strcat(t, gE[i].path + l); strcpy(gE[i].path, t);
        }
}
int __wrap_rename(const char* p, const char* q) {
    char a[160], b[160]; norm(p, a); norm(q, b);
    int i = findE(gE, nE, a);
    if (i < 0 || !parentOk(b)) { errno = ENOENT; return -1; }
    if (fault(MFS_OP_RENAME)) { errno = EIO; return -1; }
    if (!strcmp(a, b)) return 0;
    bool c = op();
    if (c && sym_choose(0, 1, "renamed") == 0) freeze(gCrashMode);
    int j = findE(gE, nE, b);
    if (j >= 0) unlinkAt(j);
    renamePrefix(a, b);
    if (c) freeze(gCrashMode);
    return 0;
}
int __wrap_mkdir(const char* p, mode_t) {
    ensure();
    char b[160]; norm(p, b);
    if (findE(gE, nE, b) >= 0) { errno = EEXIST; return -1; }
    if (!parentOk(b)) { errno = ENOENT; return -1; }
    if (fault(MFS_OP_MKDIR)) { errno = EIO; return -1; }
    bool c = op();
    if (c && sym_choose(0, 1, "made") == 0) freeze(gCrashMode);
    mk(b, true);
    if (c) freeze(gCrashMode);
    return 0;
}
int __wrap_stat(const char* p, struct stat* st) {
    ensure();
    Ino* x = look(p);
    if (!x) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_size = x->dir ? 4096 : x->size;
    st->st_mode = (x->dir ? S_IFDIR | 0755 : S_IFREG | 0644);
    st->st_nlink = 1;
    return 0;
}
int __wrap_access(const char* p, int) { if (look(p)) return 0; errno = ENOENT; return -1; }
DIR* __wrap_opendir(const char* p) {
    ensure();
    Ino* x = look(p);
    if (!x || !x->dir) { errno = ENOENT; return nullptr; }
    MDir* d = (MDir*)al(sizeof(MDir));
    strcpy(d->names[0], "."); strcpy(d->names[1], ".."); d->t[0] = d->t[1] = DT_DIR;
    char nm[MAXE][64];
    size_t n = mfs_list(p, nm, MAXE);
    char b[160]; norm(p, b);
    for (size_t i = 0; i < n; ++i) {
        strcpy(d->names[i + 2], nm[i]);
        char q[240]; strcpy(q, b); strcat(q, "/"); strcat(q, nm[i]);
        Ino* y = look(q);
        d->t[i + 2] = y && y->dir ? DT_DIR : DT_REG;
    }
    d->n = (int)n + 2;
    return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* p) {
    MDir* d = (MDir*)p;
    if (d->pos >= d->n) return nullptr;
    strcpy(d->de.d_name, d->names[d->pos]); d->de.d_type = d->t[d->pos];
    d->pos++;
    return &d->de;
}
int __wrap_closedir(DIR* p) { fr(p); return 0; }
static void cpTree(const char* a, const char* b) {
    size_t l = strlen(a);
    int n = nE;
    for (int i = 0; i < n; ++i)
        if (!strncmp(gE[i].path, a, l) && (gE[i].path[l] == '/' || !gE[i].path[l])) {
            char t[200]; strcpy(t, b); strcat(t, gE[i].path + l);
            Ino* s = gE[i].ino;
            int j = findE(gE, nE, t);
            Ino* x = j >= 0 ? gE[j].ino : mk(t, s->dir);
            if (s->dir) continue;
            if (op()) freeze(gCrashMode);
            x->size = 0; pend(x, true, 0, nullptr, 0);
            if (s->size) { wr(x, 0, s->d, s->size); pend(x, false, 0, s->d, s->size); }
        }
}
void mfs_copy_tree(const char* a, const char* b) { char x[160], y[160]; norm(a, x); norm(b, y); cpTree(x, y); }
// "cp -R a b", "mv a b", "rm -rf a" with optional "2> /dev/null"
int __wrap_system(const char* cmd) {
    char w[6][160]; int n = 0;
    const char* p = cmd;
    while (*p && n < 6) {
        while (*p == ' ') ++p;
        if (!*p) break;
        int l = 0;
        while (*p && *p != ' ') { if (l < 158) w[n][l++] = *p; ++p; }
        w[n][l] = 0; n++;
    }
    if (n >= 3 && !strcmp(w[0], "rm")) {
        char b[160]; norm(w[2], b);
        size_t l = strlen(b);
        for (int i = nE - 1; i >= 0; --i)
            if (!strncmp(gE[i].path, b, l) && (gE[i].path[l] == '/' || !gE[i].path[l])) {
                if (op()) freeze(gCrashMode);
                unlinkAt(i);
            }
        return 0;
    }
    if (n >= 4 && !strcmp(w[0], "cp")) {
        char a[160], b[160]; norm(w[2], a); norm(w[3], b);
        Ino* s = look(a); Ino* d = look(b);
        if (!s) return 256;
        if (d && d->dir) { strcat(b, strrchr(a, '/')); }
        cpTree(a, b);
        return 0;
    }
    if (n >= 3 && !strcmp(w[0], "mv")) {
        char a[160], b[160]; norm(w[1], a); norm(w[2], b);
        Ino* s = look(a); Ino* d = look(b);
        if (!s) return 256;
        if (d && d->dir) strcat(b, strrchr(a, '/'));
        return __wrap_rename(a, b) ? 256 : 0;
    }
    return 127 * 256;
}
static int gPopen = 0;
FILE* __wrap_popen(const char* cmd, const char*) { gPopen = __wrap_system(cmd); return (FILE*)&gPopen; }
int __wrap_pclose(FILE*) { return gPopen; }
}
