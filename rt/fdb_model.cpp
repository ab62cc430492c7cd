// Model of the (absent) ForestDB library: a file is an append-only sequence of
// documents and commit markers; readers see the documents up to the last
// marker, a snapshot those up to the marker of its sequence number.  Commit is
// durable and atomic (documents, fsync, marker, fsync).  Everything is kept in
// files of the environment (mfs), so crashes and faults reach it.
#include <libforestdb/forestdb.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
struct Doc { size_t kl, ml, bl; char *k, *m, *b; fdb_seqnum_t seq; bool del; };
struct Marker { size_t upto; fdb_seqnum_t seq; };
struct FFile {
    std::string path; int refs = 0, fd = -1; uint64_t pos = 0;
    std::vector<Doc> docs; std::vector<Marker> marks; size_t written = 0; fdb_seqnum_t maxSeq = 0;
    fdb_custom_cmp_variable cmp = nullptr; void* cmpParam = nullptr;
};
struct _fdb_file_handle { FFile* f; };
struct _fdb_kvs_handle { FFile* f; bool snap; size_t upto; fdb_seqnum_t seq; };
struct _fdb_iterator { FFile* f; std::vector<size_t> order; long cur; bool bySeq; };
static std::vector<FFile*>& files() { static std::vector<FFile*>* v = new std::vector<FFile*>(); return *v; }
static char* dup_(const void* p, size_t n) { char* r = n ? (char*)malloc(n) : nullptr; if (n) memcpy(r, p, n); return r; }
static int cmpKey(FFile* f, const void* a, size_t al, const void* b, size_t bl) {
    if (f->cmp) return f->cmp((void*)a, al, (void*)b, bl, f->cmpParam);
    size_t n = al < bl ? al : bl;
    int c = n ? memcmp(a, b, n) : 0;
    if (c) return c;
    return al == bl ? 0 : (al < bl ? -1 : 1);
}
static size_t visible(fdb_kvs_handle* h) { return h->snap ? h->upto : (h->f->marks.empty() ? 0 : h->f->marks.back().upto); }
static bool rd(int fd, void* p, size_t n, uint64_t& pos) { if (pread(fd, p, n, pos) != (ssize_t)n) return false; pos += n; return true; }
struct Hdr { uint32_t tag, kl, ml, bl; uint64_t seq; uint64_t del; };
static void load(FFile* f) {
    uint64_t pos = 0, good = 0; size_t goodDocs = 0;
    for (;;) {
        Hdr h;
        if (!rd(f->fd, &h, sizeof h, pos)) break;
        if (h.tag == 2) { f->marks.push_back({f->docs.size(), h.seq}); good = pos; goodDocs = f->docs.size(); continue; }
        if (h.tag != 1) break;
        Doc d{h.kl, h.ml, h.bl, h.kl ? (char*)malloc(h.kl) : nullptr, h.ml ? (char*)malloc(h.ml) : nullptr, h.bl ? (char*)malloc(h.bl) : nullptr, h.seq, h.del != 0};
        bool ok = (!h.kl || rd(f->fd, d.k, h.kl, pos)) && (!h.ml || rd(f->fd, d.m, h.ml, pos)) && (!h.bl || rd(f->fd, d.b, h.bl, pos));
        f->docs.push_back(d);
        if (!ok) break;
    }
    while (f->docs.size() > goodDocs) { Doc& d = f->docs.back(); free(d.k); free(d.m); free(d.b); f->docs.pop_back(); }
    f->pos = good; f->written = goodDocs;
    if ((uint64_t)lseek(f->fd, 0, SEEK_END) > good && ftruncate(f->fd, good) != 0) abort();
    f->maxSeq = f->marks.empty() ? 0 : f->marks.back().seq;
}
static fdb_status openFile(fdb_file_handle** out, const char* path, fdb_custom_cmp_variable cmp, void* param) {
    for (FFile* f : files()) if (f->path == path) { f->refs++; *out = new _fdb_file_handle{f}; return FDB_RESULT_SUCCESS; }
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0) return FDB_RESULT_OPEN_FAIL;
    FFile* f = new FFile(); f->path = path; f->fd = fd; f->refs = 1; f->cmp = cmp; f->cmpParam = param;
    load(f);
    files().push_back(f);
    *out = new _fdb_file_handle{f};
    return FDB_RESULT_SUCCESS;
}
static void fill(Doc& s, fdb_doc* d, size_t idx, bool key, bool body) {
    if (key) { d->keylen = s.kl; d->key = dup_(s.k, s.kl); }
    d->metalen = s.ml; d->meta = dup_(s.m, s.ml);
    d->bodylen = s.bl; d->body = body ? dup_(s.b, s.bl) : nullptr;
    d->seqnum = s.seq; d->offset = (idx + 1) * 4096; d->deleted = s.del; d->size_ondisk = s.kl + s.ml + s.bl;
}
static long lookup(fdb_kvs_handle* h, const void* k, size_t kl) {
    for (long i = (long)visible(h) - 1; i >= 0; --i) { Doc& d = h->f->docs[i]; if (d.kl == kl && cmpKey(h->f, d.k, d.kl, k, kl) == 0) return i; }
    return -1;
}
// newest document of every key among the visible ones, deleted ones left out, in key order
static void live(fdb_kvs_handle* h, std::vector<size_t>& out) {
    FFile* f = h->f;
    std::vector<size_t> all;
    for (size_t i = 0; i < visible(h); ++i) {
        Doc& d = f->docs[i]; size_t p = all.size(); bool same = false;
        while (p > 0) { Doc& q = f->docs[all[p - 1]]; int c = cmpKey(f, q.k, q.kl, d.k, d.kl); if (c == 0) { same = true; break; } if (c < 0) break; --p; }
        if (same) all[p - 1] = i; else all.insert(all.begin() + p, i);
    }
    for (size_t i : all) if (!f->docs[i].del) out.push_back(i);
}
extern "C" {
fdb_config fdb_get_default_config(void) { fdb_config c; memset(&c, 0, sizeof c); return c; }
fdb_kvs_config fdb_get_default_kvs_config(void) { fdb_kvs_config c; memset(&c, 0, sizeof c); return c; }
fdb_status fdb_open(fdb_file_handle** h, const char* p, fdb_config*) { return openFile(h, p, nullptr, nullptr); }
fdb_status fdb_open_custom_cmp(fdb_file_handle** h, const char* p, fdb_config*, size_t n, char**, fdb_custom_cmp_variable* f, void** u) { return openFile(h, p, n ? f[0] : nullptr, n && u ? u[0] : nullptr); }
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char*, fdb_kvs_config*) { *out = new _fdb_kvs_handle{h->f, false, 0, 0}; return FDB_RESULT_SUCCESS; }
static void unref(FFile* f) {
    if (--f->refs) return;
    close(f->fd);
    for (Doc& d : f->docs) { free(d.k); free(d.m); free(d.b); }
    std::vector<FFile*>& v = files();
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == f) { v.erase(v.begin() + i); break; }
    delete f;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) { if (!h) return FDB_RESULT_INVALID_ARGS; FFile* f = h->f; bool s = h->snap; delete h; if (s) unref(f); return FDB_RESULT_SUCCESS; }
fdb_status fdb_close(fdb_file_handle* h) { if (!h) return FDB_RESULT_INVALID_ARGS; FFile* f = h->f; delete h; unref(f); return FDB_RESULT_SUCCESS; }
static bool put(FFile* f, const void* p, size_t n) { if (!n) return true; if (pwrite(f->fd, p, n, f->pos) != (ssize_t)n) return false; f->pos += n; return true; }
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    FFile* f = h->f; uint64_t start = f->pos; bool any = f->written < f->docs.size(), ok = true;
    for (size_t i = f->written; ok && i < f->docs.size(); ++i) {
        Doc& d = f->docs[i]; Hdr x{1, (uint32_t)d.kl, (uint32_t)d.ml, (uint32_t)d.bl, d.seq, d.del};
        ok = put(f, &x, sizeof x) && put(f, d.k, d.kl) && put(f, d.m, d.ml) && put(f, d.b, d.bl);
    }
    if (ok && any) ok = fsync(f->fd) == 0;
    Hdr m{2, 0, 0, 0, f->maxSeq, 0};
    ok = ok && put(f, &m, sizeof m) && fsync(f->fd) == 0;
    if (!ok) { f->pos = start; return FDB_RESULT_WRITE_FAIL; }
    f->written = f->docs.size();
    f->marks.push_back({f->docs.size(), f->maxSeq});
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* h) { return fsync(h->f->fd) == 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_WRITE_FAIL; }
static fdb_status add(fdb_kvs_handle* h, fdb_doc* d, bool del) {
    if (h->snap) return FDB_RESULT_INVALID_ARGS;
    FFile* f = h->f;
    fdb_seqnum_t s = (d->flags & FDB_CUSTOM_SEQNUM) ? d->seqnum : f->maxSeq + 1;
    d->seqnum = s;
    if (s > f->maxSeq) f->maxSeq = s;
    f->docs.push_back({d->keylen, d->metalen, del ? 0 : d->bodylen, dup_(d->key, d->keylen), dup_(d->meta, d->metalen), del ? nullptr : dup_(d->body, d->bodylen), s, del});
    d->offset = f->docs.size() * 4096;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* d) { return add(h, d, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* d) { return add(h, d, true); }
static fdb_status get(fdb_kvs_handle* h, fdb_doc* d, bool body) {
    long i = lookup(h, d->key, d->keylen);
    if (i < 0 || h->f->docs[i].del) return FDB_RESULT_KEY_NOT_FOUND;
    fill(h->f->docs[i], d, i, false, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* d) { return get(h, d, true); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* d) { return get(h, d, false); }
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* d) {
    uint64_t i = d->offset / 4096;
    if (d->offset % 4096 || i == 0 || i > h->f->docs.size()) return FDB_RESULT_READ_FAIL;
    fill(h->f->docs[i - 1], d, i - 1, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_nearest(fdb_kvs_handle* h, void* k, size_t kl, fdb_doc* d, fdb_get_nearest_opt_t o) {
    std::vector<size_t> v; live(h, v); FFile* f = h->f; long best = -1;
    bool up = o == FDB_GET_GREATER_OR_EQUAL || o == FDB_GET_GREATER, eq = o == FDB_GET_GREATER_OR_EQUAL || o == FDB_GET_SMALLER_OR_EQUAL;
    if (up) { for (size_t i : v) { int c = cmpKey(f, f->docs[i].k, f->docs[i].kl, k, kl); if (c > 0 || (c == 0 && eq)) { best = i; break; } } }
    else { for (size_t j = v.size(); j > 0; --j) { size_t i = v[j - 1]; int c = cmpKey(f, f->docs[i].k, f->docs[i].kl, k, kl); if (c < 0 || (c == 0 && eq)) { best = i; break; } } }
    if (best < 0) return FDB_RESULT_KEY_NOT_FOUND;
    fill(f->docs[best], d, best, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_doc_free(fdb_doc* d) { if (d) { free(d->key); free(d->meta); free(d->body); free(d); } return FDB_RESULT_SUCCESS; }
fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* mn, size_t ml, const void* mx, size_t xl, fdb_iterator_opt_t) {
    std::vector<size_t> v; live(h, v);
    _fdb_iterator* it = new _fdb_iterator{h->f, {}, 0, false};
    for (size_t i : v) {
        Doc& d = h->f->docs[i];
        if (mn && ml && cmpKey(h->f, d.k, d.kl, mn, ml) < 0) continue;
        if (mx && xl && cmpKey(h->f, d.k, d.kl, mx, xl) > 0) continue;
        it->order.push_back(i);
    }
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out, fdb_seqnum_t mn, fdb_seqnum_t mx, fdb_iterator_opt_t) {
    std::vector<size_t> v; live(h, v);
    _fdb_iterator* it = new _fdb_iterator{h->f, {}, 0, true};
    for (size_t i : v) {
        fdb_seqnum_t s = h->f->docs[i].seq;
        if (s < mn || (mx && s > mx)) continue;
        size_t p = it->order.size();
        while (p > 0 && h->f->docs[it->order[p - 1]].seq > s) --p;
        it->order.insert(it->order.begin() + p, i);
    }
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_prev(fdb_iterator* it) { if (it->cur >= 0) --it->cur; return it->cur >= 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL; }
fdb_status fdb_iterator_next(fdb_iterator* it) { long n = it->order.size(); if (it->cur < n) ++it->cur; return it->cur < n ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL; }
static fdb_status iget(fdb_iterator* it, fdb_doc** d, bool body) {
    if (it->cur < 0 || it->cur >= (long)it->order.size()) return FDB_RESULT_ITERATOR_FAIL;
    if (!*d) { *d = (fdb_doc*)malloc(sizeof(fdb_doc)); memset(*d, 0, sizeof(fdb_doc)); }
    size_t i = it->order[it->cur];
    fill(it->f->docs[i], *d, i, true, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** d) { return iget(it, d, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** d) { return iget(it, d, false); }
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* k, size_t kl, fdb_iterator_seek_opt_t o) {
    FFile* f = it->f; long n = it->order.size();
    if (o == FDB_ITR_SEEK_HIGHER) { for (long i = 0; i < n; ++i) { Doc& d = f->docs[it->order[i]]; if (cmpKey(f, d.k, d.kl, k, kl) >= 0) { it->cur = i; return FDB_RESULT_SUCCESS; } } }
    else { for (long i = n - 1; i >= 0; --i) { Doc& d = f->docs[it->order[i]]; if (cmpKey(f, d.k, d.kl, k, kl) <= 0) { it->cur = i; return FDB_RESULT_SUCCESS; } } }
    return FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t s, fdb_iterator_seek_opt_t o) {
    FFile* f = it->f; long n = it->order.size();
    if (o == FDB_ITR_SEEK_HIGHER) { for (long i = 0; i < n; ++i) if (f->docs[it->order[i]].seq >= s) { it->cur = i; return FDB_RESULT_SUCCESS; } }
    else { for (long i = n - 1; i >= 0; --i) if (f->docs[it->order[i]].seq <= s) { it->cur = i; return FDB_RESULT_SUCCESS; } }
    return FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) { it->cur = 0; return it->order.empty() ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS; }
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) { it->cur = (long)it->order.size() - 1; return it->order.empty() ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS; }
fdb_status fdb_iterator_close(fdb_iterator* it) { delete it; return FDB_RESULT_SUCCESS; }
fdb_status fdb_snapshot_open(fdb_kvs_handle* h, fdb_kvs_handle** out, fdb_seqnum_t s) {
    FFile* f = h->f;
    if (h->snap) { if (s != FDB_SNAPSHOT_INMEM && s != h->seq) return FDB_RESULT_NO_DB_INSTANCE; *out = new _fdb_kvs_handle{f, true, h->upto, h->seq}; f->refs++; return FDB_RESULT_SUCCESS; }
    if (s == 0 && f->marks.empty()) { *out = new _fdb_kvs_handle{f, true, 0, 0}; f->refs++; return FDB_RESULT_SUCCESS; }
    for (size_t i = f->marks.size(); i > 0; --i) if (s == FDB_SNAPSHOT_INMEM || f->marks[i - 1].seq == s) { *out = new _fdb_kvs_handle{f, true, f->marks[i - 1].upto, f->marks[i - 1].seq}; f->refs++; return FDB_RESULT_SUCCESS; }
    return FDB_RESULT_NO_DB_INSTANCE;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* n) {
    FFile* f = h->f; *n = f->marks.size();
    if (f->marks.empty()) { *out = nullptr; return FDB_RESULT_NO_DB_INSTANCE; }
    *out = (fdb_snapshot_info_t*)malloc(*n * sizeof(fdb_snapshot_info_t));
    for (size_t i = 0; i < *n; ++i) {
        fdb_kvs_commit_marker_t* m = (fdb_kvs_commit_marker_t*)malloc(sizeof *m);
        m->kv_store_name = nullptr; m->seqnum = f->marks[*n - 1 - i].seq;
        (*out)[i] = fdb_snapshot_info_t{*n - i, 1, m};
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t n) { for (uint64_t i = 0; i < n; ++i) free(m[i].kvs_markers); free(m); return FDB_RESULT_SUCCESS; }
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* o) {
    memset(o, 0, sizeof *o); _fdb_kvs_handle k{h->f, false, 0, 0}; std::vector<size_t> v; live(&k, v);
    o->filename = h->f->path.c_str(); o->doc_count = v.size(); o->file_size = 4096 * (h->f->docs.size() + h->f->marks.size()); o->space_used = 4096 * v.size();
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* o) {
    memset(o, 0, sizeof *o); std::vector<size_t> v; live(h, v);
    o->doc_count = v.size(); o->last_seqnum = h->snap ? h->seq : h->f->maxSeq; o->space_used = 4096 * v.size();
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* s) { *s = h->snap ? h->seq : h->f->maxSeq; return FDB_RESULT_SUCCESS; }
fdb_status fdb_traverse_index(fdb_kvs_handle* h, void* k, size_t kl, fdb_index_traversal_cb cb, void* ctx) {
    std::vector<size_t> v; live(h, v); FFile* f = h->f;
    for (size_t i : v) {
        Doc& d = f->docs[i];
        if (k && kl && cmpKey(f, d.k, d.kl, k, kl) < 0) continue;
        if (cb(h, d.k, d.kl, (i + 1) * 4096, ctx) == FDB_IT_STOP) break;
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_shutdown(void) { return FDB_RESULT_SUCCESS; }
void fdb_print_cache_stats(void) {}
uint64_t fdb_get_buffer_cache_used(void) { return 0; }
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) { return FDB_RESULT_SUCCESS; }
void fdb_model_reset() { std::vector<FFile*>& v = files(); v.clear(); }   // after a simulated crash: handles of the dead process are forgotten
}
