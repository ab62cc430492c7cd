//@ src
//@ run C06 quick args=0,1,2 time=60 cover=1,2,3,4 -- every pair/triple of keys of 0..4 (pairs) and 0..3 (triples) symbolic bytes; pairs with one size any 32-bit number and equal prefixes
//@ run C06 thorough args=0,1,2 time=300 cover=1,2,3,4 -- as quick, lengths up to 8 and 4
//@ run C07 quick args=10,11,12,13,14 time=60 cover=10,11,12,13,14 -- buffers/records of 0..4 symbolic bytes per field; every ownership state (borrowed, malloc, new[]), copy/move/clone/resize/free, then a check that every allocation was released exactly once
//@ run C07 thorough args=10,11,12,13,14 time=200 cover=10,11,12,13,14 -- as quick with 0..8 bytes
#include "sym.h"
#include "libjungle/jungle.h"
#include <cstring>
using namespace jungle;
static int ref(const uint8_t* a, size_t n, const uint8_t* b, size_t m) {
    for (size_t i = 0; i < n && i < m; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return n < m ? -1 : n > m ? 1 : 0;
}
static int sg(int x) { return (x > 0) - (x < 0); }
static uint8_t* buf(size_t n, const char* nm) { uint8_t* p = new uint8_t[n]; sym_bytes(p, n, nm); return p; }
static void order() {
    size_t M = sym_tier() ? 8 : 4;
    size_t n = sym_choose(0, M, "n"), m = sym_choose(0, M, "m");
    uint8_t *a = buf(n, "a"), *b = buf(m, "b");
    SizedBuf A(n, n ? a : nullptr), B(m, m ? b : nullptr);
    int r = ref(a, n, b, m);
    sym_assert(sg(SizedBuf::cmp(A, B)) == r, "cmp is not the lexicographic order");
    sym_assert((A == B) == (r == 0), "== differs from byte equality");
    sym_assert((A != B) == (r != 0), "!= differs from byte inequality");
    sym_assert((A < B) == (r < 0), "< is not the lexicographic order");
    sym_assert((A <= B) == (r <= 0), "<= is not the lexicographic order");
    sym_assert((A > B) == (r > 0), "> is not the lexicographic order");
    sym_assert((A >= B) == (r >= 0), ">= is not the lexicographic order");
    Record ra, rb; ra.kv.key = A; rb.kv.key = B;
    sym_assert(Record::Less()(&ra, &rb) == (r < 0), "Record::Less is not the key order");
    delete[] a; delete[] b;
    sym_cover(1);
}
static void transitive() {
    size_t M = sym_tier() ? 4 : 3;
    SizedBuf v[3]; uint8_t* p[3];
    static const char* nm[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) { size_t n = sym_choose(0, M, "len"); p[i] = buf(n, nm[i]); v[i].set(n, p[i]); }
    if (v[0] < v[1] && v[1] < v[2]) { sym_assert(v[0] < v[2], "< is not transitive"); sym_cover(2); }
    sym_assert(!(v[0] < v[1] && v[1] < v[0]), "< is not asymmetric");
    for (int i = 0; i < 3; ++i) delete[] p[i];
}
static void huge() {    // only the common prefix may be read: sizes beyond the other's size are never touched
    uint8_t* a = buf(2, "a");
    uint64_t big = sym_range(3, 0xffffffffu, "big");
    size_t small = sym_choose(1, 2, "small");
    uint8_t* b = new uint8_t[2]; memcpy(b, a, 2);
    SizedBuf A(big, a), B(small, b);
    sym_assert(SizedBuf::cmp(A, B) > 0, "a longer key with equal prefix does not compare greater");
    sym_assert(SizedBuf::cmp(B, A) < 0, "a shorter key with equal prefix does not compare smaller");
    sym_assert(A > B && B < A && A >= B && B <= A && A != B, "operators disagree on keys with equal prefix");
    delete[] a; delete[] b;
    sym_cover(3); sym_cover(4);
}
// ---- ownership
static size_t M() { return sym_tier() ? 8 : 4; }
static bool same(const SizedBuf& s, const uint8_t* p, size_t n) { return s.size == n && (!n || !memcmp(s.data, p, n)); }
static void own_buf() {
    size_t n = sym_choose(0, M(), "n");
    uint8_t* src = buf(n, "d");
    uint64_t live = sym_live_heap();
    unsigned how = (unsigned)sym_choose(0, 3, "how");
    SizedBuf s;
    if (how == 0) s.set(n, src);
    else if (how == 1) s.alloc(n, src);
    else if (how == 2) { s.set(n, malloc(n + 1)); memcpy(s.data, src, n); s.setNeedToFree(); }
    else { s.set(n, new uint8_t[n + 1]); memcpy(s.data, src, n); s.setNeedToDelete(); }
    sym_assert(same(s, src, n), "content differs from the source");
    bool owns = how == 2 || how == 3 || (how == 1 && n);
    switch (sym_choose(0, 5, "op")) {
    case 0: { SizedBuf d; s.copyTo(d); sym_assert(same(d, src, n), "copy differs"); sym_assert(!n || d.data != s.data, "copy shares memory");
              if (n) { d.data[0] ^= 1; sym_assert(same(s, src, n), "writing to a copy changed the source"); }
              sym_assert(d.free() == (n > 0), "free() of a copy"); sym_assert(d.empty() && !d.data, "not empty after free"); break; }
    case 1: { SizedBuf d; s.moveTo(d); sym_assert(same(d, src, n), "moved content differs"); sym_assert(s.empty() && !s.data && !s.flags, "source not empty after move");
              sym_assert(!s.free(), "moved-from buffer frees memory"); d.moveTo(s); break; }
    case 2: { SizedBuf d; d.referTo(s); sym_assert(same(d, src, n), "reference differs"); sym_assert(!d.free(), "a reference owns memory"); break; }
    case 3: { SizedBuf d(s); sym_assert(same(d, src, n) && d.data == s.data, "copy constructor"); s.clear(); s = d; break; }
    case 4: { size_t k = sym_choose(1, M(), "newsize"); s.resize(k);
              bool can = how == 2 || (how == 1 && n);
              sym_assert(s.size == (can ? k : n), "resize: wrong size");
              sym_assert(!memcmp(s.data ? s.data : src, src, can ? (k < n ? k : n) : n), "resize lost content");
              if (can) for (size_t i = 0; i < k; ++i) s.data[i] = 0; break; }
    default: { std::string t = s.toString(); sym_assert(t.size() == n && !memcmp(t.data(), src, n), "toString differs"); break; }
    }
    sym_assert(s.free() == owns, "free() reports the wrong ownership");
    sym_assert(!s.free(), "second free() claims to free");
    sym_assert(s.flags == 0, "flags not cleared");
    sym_assert(sym_live_heap() == live, "memory leaked");
    delete[] src;
    sym_cover(10);
}
static void own_rec() {
    size_t k = sym_choose(0, 2, "k"), v = sym_choose(0, 2, "v"), m = sym_choose(0, 2, "m");
    uint8_t *kb = buf(k, "kb"), *vb = buf(v, "vb"), *mb = buf(m, "mb");
    uint64_t live = sym_live_heap();
    Record r; r.kv.key.set(k, k ? kb : nullptr); r.kv.value.set(v, v ? vb : nullptr); r.meta.set(m, m ? mb : nullptr);
    r.seqNum = sym_u64("seq"); r.type = (Record::Type)sym_range(0, 2, "type");
    sym_assert(r.size() == k + v + m && r.empty() == (k == 0 && v == 0), "size()/empty() wrong");
    sym_assert(r.isIns() == (r.type == 0) && r.isDel() == (r.type == 1) && r.isCmd() == (r.type == 2), "type predicates wrong");
    {
        Record d;
        if (sym_choose(0, 1, "clone")) { Status s = d.clone(r); sym_assert((bool)s, "clone of an empty record refused"); }
        else r.copyTo(d);
        sym_assert(same(d.kv.key, kb, k) && same(d.kv.value, vb, v) && same(d.meta, mb, m) && d.seqNum == r.seqNum && d.type == r.type, "copy differs from the record");
        if (k + v) { Status s = d.clone(r); sym_assert(!s && s == Status::ALREADY_INITIALIZED, "clone over a used record accepted"); }
        Record e; d.moveTo(e);
        sym_assert(d.kv.key.empty() && d.kv.value.empty() && d.meta.empty() && d.seqNum == Record::NIL_SEQNUM, "moved-from record not empty");
        sym_assert(same(e.kv.key, kb, k) && same(e.kv.value, vb, v) && same(e.meta, mb, m) && e.seqNum == r.seqNum && e.type == r.type, "moved record differs");
        Record::Holder h(e);
    }
    sym_assert(sym_live_heap() == live, "memory leaked");
    sym_assert(same(r.kv.key, kb, k) && same(r.meta, mb, m), "source changed");
    delete[] kb; delete[] vb; delete[] mb;
    sym_cover(11);
}
static void own_kv() {
    size_t k = sym_choose(0, 3, "k"), v = sym_choose(0, 3, "v");
    uint8_t *kb = buf(k, "kb"), *vb = buf(v, "vb");
    uint64_t live = sym_live_heap();
    {
        KV a(k, kb, v, vb), b, c;
        KV::Holder hb(b), hc(c);
        sym_assert(a.size() == k + v, "KV::size");
        a.copyTo(b);
        sym_assert(same(b.key, kb, k) && same(b.value, vb, v), "KV copy differs");
        b.moveTo(c);
        sym_assert(b.key.empty() && b.value.empty() && same(c.key, kb, k) && same(c.value, vb, v), "KV move");
        b.alloc(SizedBuf(k, kb), SizedBuf(v, vb));
        sym_assert(same(b.key, kb, k) && same(b.value, vb, v), "KV alloc differs");
        KV d(c);
        sym_assert(same(d.key, kb, k) && same(d.value, vb, v), "KV copy constructor differs");
    }
    sym_assert(sym_live_heap() == live, "memory leaked");
    delete[] kb; delete[] vb;
    sym_cover(12);
}
static void str_forms() {
    size_t k = sym_choose(0, 3, "k");
    char t[4]; sym_bytes(t, k, "t"); for (size_t i = 0; i < k; ++i) sym_assume(t[i] != 0);
    t[k] = 0;
    uint64_t live = sym_live_heap();
    {
        std::string s(t, k);
        SizedBuf a(t), b(s), c, d; c.set(t); d.set(s);
        const uint8_t* u = (const uint8_t*)t;
        sym_assert(same(a, u, k) && same(b, u, k) && same(c, u, k) && same(d, u, k), "string forms differ");
        SizedBuf e, f; e.alloc(t); f.alloc(s); SizedBuf::Holder he(e), hf(f);
        sym_assert(same(e, u, k) && same(f, u, k), "alloc from string differs");
        KV kv(t, t), kv2(s, s);
        sym_assert(same(kv.key, u, k) && same(kv2.value, u, k), "KV from strings differs");
        KV kv3; kv3.alloc(s, s); sym_assert(same(kv3.key, u, k) && same(kv3.value, u, k), "KV alloc from strings"); kv3.free();
        kv3.alloc(t, t); sym_assert(same(kv3.key, u, k) && same(kv3.value, u, k), "KV alloc from C strings"); kv3.free();
    }
    sym_assert(sym_live_heap() == live, "memory leaked");
    sym_cover(13);
}
static void zero_alloc() {
    size_t n = sym_choose(0, M(), "n");
    uint64_t live = sym_live_heap();
    SizedBuf s(n);
    sym_assert(s.size == n, "size of fresh buffer");
    for (size_t i = 0; i < n; ++i) sym_assert(s.data[i] == 0, "fresh buffer not zeroed");
    SizedBuf t; t.alloc(n); sym_assert(t.size == n, "alloc size");
    { SizedBuf::Holder a(s), b(t); }
    sym_assert(s.empty() && t.empty() && sym_live_heap() == live, "Holder did not release the buffer");
    Status st((Status::Value)sym_range(0, 0xff, "code") );
    sym_assert((bool)st == (st == Status::OK) && st.ok() == (bool)st, "Status truth value");
    sym_cover(14);
}
HARNESS {
    switch (sym_arg()) {
    case 0: order(); break; case 1: transitive(); break; case 2: huge(); break;
    case 10: own_buf(); break; case 11: own_rec(); break; case 12: own_kv(); break; case 13: str_forms(); break;
    default: zero_alloc();
    }
}
