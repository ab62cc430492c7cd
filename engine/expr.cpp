#include "expr.h"
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <map>

typedef unsigned __int128 u128;

// ---------------------------------------------------------------- interning
static const size_t ARENA_CHUNK = 1 << 14;
static std::vector<Expr*> arena;
static size_t arenaUsed = ARENA_CHUNK;
static u32 nextId = 1;
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t tableCnt = 0;

static std::vector<std::string> gSymNames;
static std::vector<unsigned> gSymW;
static std::vector<Expr*> gSymE;

struct VecHash {
    size_t operator()(const std::vector<u32>& v) const {
        size_t h = 1469598103934665603ULL;
        for (u32 x : v) { h ^= x; h *= 1099511628211ULL; }
        return h;
    }
};
static std::unordered_map<std::vector<u32>, SymSet*, VecHash> symSets;

static const SymSet* internSet(std::vector<u32>&& v) {
    auto it = symSets.find(v);
    if (it != symSets.end()) return it->second;
    SymSet* s = new SymSet;
    s->v = v;
    symSets[std::move(v)] = s;
    return s;
}
struct PairHash { size_t operator()(const std::pair<const void*, const void*>& p) const {
    return (size_t)p.first * 31 + (size_t)p.second; } };
static std::unordered_map<std::pair<const void*, const void*>, const SymSet*, PairHash> unionCache;
static const SymSet* setUnion(const SymSet* a, const SymSet* b) {
    if (!a) return b;
    if (!b || a == b) return a;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair((const void*)a, (const void*)b);
    auto it = unionCache.find(key);
    if (it != unionCache.end()) return it->second;
    std::vector<u32> r;
    r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    const SymSet* s = internSet(std::move(r));
    unionCache[key] = s;
    return s;
}

static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static u64 addMay(u64 x, u64 y, unsigned w) {
    // upper bound on the bits of a sum
    if (!x) return y;
    if (!y) return x;
    unsigned tz = std::min(__builtin_ctzll(x), __builtin_ctzll(y));
    u128 mx = (u128)x + y;
    unsigned top = 0;
    u128 t = mx;
    while (t) { top++; t >>= 1; }
    u64 m = top >= 64 ? ~0ULL : ((1ULL << top) - 1);
    m &= ~((1ULL << tz) - 1);
    return m & maskw(w);
}

static u64 computeMay(EK k, unsigned w, Expr* a, Expr* b, Expr* c, u64 val) {
    if (w > 64) return ~0ULL;
    u64 mw = maskw(w);
    switch (k) {
    case EConst: return val & mw;
    case ESym: return mw;
    case EAdd: return addMay(a->may, b->may, w);
    case EMul: {
        if (!a->may || !b->may) return 0;
        unsigned tz = __builtin_ctzll(a->may) + __builtin_ctzll(b->may);
        u128 mx = (u128)a->may * b->may;
        unsigned top = 0; u128 t = mx;
        while (t) { top++; t >>= 1; }
        u64 m = top >= 64 ? ~0ULL : ((1ULL << top) - 1);
        if (tz >= 64) return 0;
        m &= ~((1ULL << tz) - 1);
        return m & mw;
    }
    case EAnd: return a->may & b->may;
    case EOr: case EXor: return a->may | b->may;
    case EUDiv: case EURem: {
        // bounded by the dividend (division by zero: smt gives all ones / dividend)
        if (!isC(b) || !b->val) return mw;
        u64 m = a->may;
        if (k == EURem) m = std::min(m, b->val - 1);
        unsigned top = m ? 64 - __builtin_clzll(m) : 0;
        return maskw(top) & (top ? ~0ULL : 0);
    }
    case ELShr: {
        unsigned top = a->may ? 64 - __builtin_clzll(a->may) : 0;
        return top ? maskw(top) : 0;
    }
    case EEq: case EUlt: case ESlt: return 1;
    case EIte: return b->may | c->may;
    case EConcat:
        return ((a->may << b->w) | b->may) & mw;
    case EExtract:
        if (a->w > 64) return mw;
        return (a->may >> val) & mw;
    case EZExt: return a->may;
    default: return mw;
    }
}

bool opaqueKind(const Expr* e) {
    switch (e->k) {
    case EUDiv: case ESDiv: case EURem: case ESRem: return e->w > 8;
    case EMul: return e->w > 16;
    default: return false;
    }
}
static u64 umaxD(Expr* e, int d) {
    if (e->w > 64) return ~0ULL;
    u64 m = e->may;     // max value with these bits
    if (!m) return 0;
    if (d <= 0) return m;
    switch (e->k) {
    case EConst: return e->val;
    case EURem: if (isC(e->b) && e->b->val) return std::min(std::min(m, e->b->val - 1), umaxD(e->a, d - 1)); break;
    case EUDiv: if (isC(e->b) && e->b->val) return std::min(m, umaxD(e->a, d - 1) / e->b->val); break;
    case EZExt: return umaxD(e->a, d - 1);
    case EExtract: {
        if (e->a->w > 64) break;
        u64 x = umaxD(e->a, d - 1) >> e->val;
        if (x <= maskw(e->w)) return std::min(m, x);
        break;
    }
    case ELShr: if (isC(e->b) && e->b->val < e->w) return std::min(m, umaxD(e->a, d - 1) >> e->b->val); break;
    case EAnd: return std::min(m, std::min(umaxD(e->a, d - 1), umaxD(e->b, d - 1)));
    case EIte: if (e->b->k != EIte && e->c->k != EIte) return std::min(m, std::max(umaxD(e->b, d - 1), umaxD(e->c, d - 1))); break;
    case EAdd: {
        u128 x = (u128)umaxD(e->a, d - 1) + umaxD(e->b, d - 1);
        if (x <= maskw(e->w)) return std::min(m, (u64)x);
        break;
    }
    case EMul: {
        u128 x = (u128)umaxD(e->a, d - 1) * umaxD(e->b, d - 1);
        if (x <= maskw(e->w)) return std::min(m, (u64)x);
        break;
    }
    case EConcat: return std::min(m, (umaxD(e->a, d - 1) << e->b->w) | umaxD(e->b, d - 1));
    default: break;
    }
    return m;
}
u64 umaxExpr(Expr* e) { return umaxD(e, 7); }

static bool wantMay0(EK) { return true; }

static Expr* intern(EK k, unsigned w, Expr* a, Expr* b, Expr* c, u64 val, u64 hi) {
    u64 h = hmix(k * 131 + w, val);
    h = hmix(h, hi);
    h = hmix(h, a ? a->id : 0);
    h = hmix(h, b ? b->id : 0);
    h = hmix(h, c ? c->id : 0);
    size_t mask = table.size() - 1;
    size_t i = h & mask;
    while (Expr* e = table[i]) {
        if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c &&
            e->val == val && e->hi == hi)
            return e;
        i = (i + 1) & mask;
    }
    if (arenaUsed == ARENA_CHUNK) {
        arena.push_back((Expr*)malloc(sizeof(Expr) * ARENA_CHUNK));
        arenaUsed = 0;
    }
    Expr* e = &arena.back()[arenaUsed++];
    e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->hi = hi;
    e->id = nextId++; e->hash = h; e->evEpoch = 0; e->ev = 0; e->z = nullptr;
    e->syms = nullptr;
    if (k == ESym) e->syms = internSet({(u32)val});
    else {
        if (a) e->syms = a->syms;
        if (b) e->syms = setUnion(e->syms, b->syms);
        if (c) e->syms = setUnion(e->syms, c->syms);
    }
    e->may = computeMay(k, w, a, b, c, val);
    e->hard = opaqueKind(e) || (a && a->hard) || (b && b->hard) || (c && c->hard);
    table[i] = e;
    if (++tableCnt * 2 > table.size()) {
        std::vector<Expr*> nt(table.size() * 2, nullptr);
        size_t nm = nt.size() - 1;
        for (Expr* x : table) if (x) {
            size_t j = x->hash & nm;
            while (nt[j]) j = (j + 1) & nm;
            nt[j] = x;
        }
        table.swap(nt);
    }
    if (k != EConst && w <= 64 && e->may == 0 && wantMay0(k)) return mkConst(0, w);
    return e;
}

u64 numExprs() { return tableCnt; }

Expr* mkConst(u64 v, unsigned w, u64 hi) {
    if (w <= 64) { v &= maskw(w); hi = 0; }
    else if (w < 128) hi &= maskw(w - 64);
    return intern(EConst, w, nullptr, nullptr, nullptr, v, hi);
}
static u128 cval(const Expr* e) { return ((u128)e->hi << 64) | e->val; }
static Expr* mkC128(u128 v, unsigned w) {
    if (w > 128) { fprintf(stderr, "jsym: constant wider than 128 bits\n"); abort(); }
    return mkConst((u64)v, w, (u64)(v >> 64));
}

Expr* mkSym(unsigned w, const std::string& name) {
    u32 id = gSymNames.size();
    gSymNames.push_back(name);
    gSymW.push_back(w);
    Expr* e = intern(ESym, w, nullptr, nullptr, nullptr, id, 0);
    gSymE.push_back(e);
    return e;
}
const std::string& symName(u32 id) { return gSymNames[id]; }
unsigned symWidth(u32 id) { return gSymW[id]; }
u32 numSyms() { return gSymNames.size(); }
Expr* symExpr(u32 id) { return gSymE[id]; }

// ---------------------------------------------------------------- helpers
static bool isZero(Expr* e) { return isC(e) && e->val == 0 && e->hi == 0; }
static bool isOnes(Expr* e) {
    if (!isC(e)) return false;
    if (e->w <= 64) return e->val == maskw(e->w);
    return e->val == ~0ULL && e->hi == maskw(e->w - 64);
}

static u64 foldBin(EK k, u64 x, u64 y, unsigned w, bool& ok) {
    u64 m = maskw(w);
    ok = true;
    switch (k) {
    case EAdd: return (x + y) & m;
    case EMul: return (x * y) & m;
    case EUDiv: if (!y) return m; return (x / y) & m;
    case EURem: if (!y) return x; return (x % y) & m;
    case ESDiv: {
        if (!y) { return sext64(x, w) < 0 ? 1 : m; }
        i64 sx = sext64(x, w), sy = sext64(y, w);
        if (sy == -1) return (0 - (u64)sx) & m;
        return (u64)(sx / sy) & m;
    }
    case ESRem: {
        if (!y) return x;
        i64 sx = sext64(x, w), sy = sext64(y, w);
        if (sy == -1) return 0;
        return (u64)(sx % sy) & m;
    }
    case EAnd: return x & y;
    case EOr: return x | y;
    case EXor: return x ^ y;
    case EShl: return y >= w ? 0 : (x << y) & m;
    case ELShr: return y >= w ? 0 : (x >> y);
    case EAShr: { i64 sx = sext64(x, w); if (y >= w) y = w - 1; return (u64)(sx >> y) & m; }
    case EEq: return x == y;
    case EUlt: return x < y;
    case ESlt: return sext64(x, w) < sext64(y, w);
    default: ok = false; return 0;
    }
}
static Expr* foldWide(EK k, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (w > 128) return nullptr;
    u128 x = cval(a), y = cval(b);
    switch (k) {
    case EAdd: return mkC128(x + y, w);
    case EMul: return mkC128(x * y, w);
    case EUDiv: if (!y) return nullptr; return mkC128(x / y, w);
    case EURem: if (!y) return nullptr; return mkC128(x % y, w);
    case EAnd: return mkC128(x & y, w);
    case EOr: return mkC128(x | y, w);
    case EXor: return mkC128(x ^ y, w);
    case EShl: return mkC128(y >= w ? 0 : x << (unsigned)y, w);
    case ELShr: return mkC128(y >= w ? 0 : x >> (unsigned)y, w);
    case EEq: return mkConst(x == y, 1);
    case EUlt: return mkConst(x < y, 1);
    case ESlt: {
        u128 sb = (u128)1 << (w - 1);
        return mkConst((x ^ sb) < (y ^ sb), 1);
    }
    default: return nullptr;
    }
}

// is this an ITE tree with constant leaves of bounded size?
static int iteConstLeaves(Expr* e, int budget) {
    if (isC(e)) return 1;
    if (e->k != EIte || budget <= 1) return 1000;
    int l = iteConstLeaves(e->b, budget - 1);
    if (l >= budget) return 1000;
    int r = iteConstLeaves(e->c, budget - l);
    return l + r;
}
static const int ITE_BUDGET = 40;
template <class F> static Expr* mapIte(Expr* e, F f) {
    if (e->k == EIte) {
        Expr* x = mapIte(e->b, f);
        Expr* y = mapIte(e->c, f);
        return mkIte(e->a, x, y);
    }
    return f(e);
}

// ---- segment decomposition (for or/xor/add of disjoint pieces)
struct Seg { unsigned w; Expr* e; };     // low-to-high order
static void segs(Expr* e, std::vector<Seg>& out) {
    if (e->k == EConcat) { segs(e->b, out); segs(e->a, out); return; }
    if (e->k == EZExt) { segs(e->a, out); out.push_back({(unsigned)(e->w - e->a->w), nullptr}); return; }
    if (isZero(e)) { out.push_back({e->w, nullptr}); return; }
    out.push_back({e->w, e});
}
static Expr* tryDisjoint(Expr* a, Expr* b) {
    if (a->k != EConcat && a->k != EZExt) return nullptr;
    if (b->k != EConcat && b->k != EZExt) return nullptr;
    if (a->w <= 64 && (a->may & b->may)) return nullptr;
    std::vector<Seg> x, y;
    segs(a, x); segs(b, y);
    size_t i = 0, j = 0;
    unsigned xo = 0, yo = 0;
    Expr* res = nullptr;
    std::vector<Expr*> parts;
    while (i < x.size() && j < y.size()) {
        unsigned n = std::min(x[i].w - xo, y[j].w - yo);
        Expr* p;
        if (x[i].e && y[j].e) {
            Expr* q = mkExtract(x[i].e, xo, n);
            Expr* r = mkExtract(y[j].e, yo, n);
            if (isZero(q)) p = r;
            else if (isZero(r)) p = q;
            else return nullptr;
        } else if (x[i].e) p = mkExtract(x[i].e, xo, n);
        else if (y[j].e) p = mkExtract(y[j].e, yo, n);
        else p = mkConst(0, n);
        parts.push_back(p);
        xo += n; yo += n;
        if (xo == x[i].w) { i++; xo = 0; }
        if (yo == y[j].w) { j++; yo = 0; }
    }
    for (size_t q = 0; q < parts.size(); ++q) res = res ? mkConcat(parts[q], res) : parts[q];
    return res;
}

static bool isCmp(EK k) { return k == EEq || k == EUlt || k == ESlt; }
static bool commut(EK k) { return k == EAdd || k == EMul || k == EAnd || k == EOr || k == EXor || k == EEq; }

Expr* mkSub(Expr* a, Expr* b) {
    if (a == b) return mkConst(0, a->w);
    if (isC(b)) {
        if (b->w <= 64) return mkBin(EAdd, mkConst(0 - b->val, b->w), a);
        return mkBin(EAdd, mkC128((u128)0 - cval(b), b->w), a);
    }
    // a - b == a + ~b + 1
    if (a->k == EAdd) { // (c + x) - (c2 + x)
        Expr *ac = nullptr, *ax = a;
        if (isC(a->a)) { ac = a->a; ax = a->b; }
        Expr *bc = nullptr, *bx = b;
        if (b->k == EAdd && isC(b->a)) { bc = b->a; bx = b->b; }
        if (ax == bx) {
            Expr* z = mkConst(0, a->w);
            return mkSub(ac ? ac : z, bc ? bc : z);
        }
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
    }
    if (b->k == EAdd && isC(b->a) && b->b == a) return mkSub(mkConst(0, a->w), b->a);
    return mkBin(EAdd, mkConst(1, a->w), mkBin(EAdd, a, mkNot(b)));
}

Expr* mkNot(Expr* a) {
    if (a->w <= 64) return mkBin(EXor, mkConst(~0ULL, a->w), a);
    return mkBin(EXor, mkC128(~(u128)0, a->w), a);
}
static Expr* notOf(Expr* a) {   // if a is "not x" return x
    if (a->w == 1 && a->k == EXor && isC(a->a)) return a->b;
    return nullptr;
}

Expr* mkBin(EK k, Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "jsym: width mismatch k=%d %d %d\n", k, a->w, b->w); abort(); }
    unsigned w = a->w;
    unsigned rw = isCmp(k) ? 1 : w;
    if (isC(a) && isC(b)) {
        if (w <= 64) {
            bool ok;
            u64 r = foldBin(k, a->val, b->val, w, ok);
            if (ok) return mkConst(r, rw);
        } else if (Expr* r = foldWide(k, a, b)) return r;
    }
    if (commut(k)) {
        if (isC(b) || (!isC(a) && b->id < a->id)) std::swap(a, b);
    }
    // push operations with one constant through const-leaf ITEs
    if (isC(a) && b->k == EIte && iteConstLeaves(b, ITE_BUDGET) < ITE_BUDGET)
        return mapIte(b, [&](Expr* x) { return mkBin(k, a, x); });
    if (isC(b) && a->k == EIte && iteConstLeaves(a, ITE_BUDGET) < ITE_BUDGET)
        return mapIte(a, [&](Expr* x) { return mkBin(k, x, b); });

    switch (k) {
    case EAdd:
        if (isZero(a)) return b;
        if (isC(a) && b->k == EAdd && isC(b->a)) return mkBin(EAdd, mkBin(EAdd, a, b->a), b->b);
        if (!isC(a) && b->k == EAdd && isC(b->a)) return mkBin(EAdd, b->a, mkBin(EAdd, a, b->b));
        if (!isC(a) && a->k == EAdd && isC(a->a)) return mkBin(EAdd, a->a, mkBin(EAdd, a->b, b));
        // x + ~x == -1
        if (b->k == EXor && isOnes(b->a) && b->b == a) return b->a;
        if (a->k == EXor && isOnes(a->a) && a->b == b) return a->a;
        if (w == 1) return mkBin(EXor, a, b);
        if (Expr* d = tryDisjoint(a, b)) return d;
        if (a == b) return mkBin(EShl, a, mkConst(1, w));
        break;
    case EMul:
        if (isZero(a)) return a;
        if (isC(a) && a->val == 1 && a->hi == 0) return b;
        if (isC(a) && w <= 64 && (a->val & (a->val - 1)) == 0)
            return mkBin(EShl, b, mkConst(__builtin_ctzll(a->val), w));
        if (w == 1) return mkBin(EAnd, a, b);
        break;
    case EUDiv:
        if (isC(b) && b->val == 1 && !b->hi) return a;
        if (isC(b) && w <= 64 && b->val && (b->val & (b->val - 1)) == 0)
            return mkBin(ELShr, a, mkConst(__builtin_ctzll(b->val), w));
        if (isC(b) && w <= 64 && b->val && a->may < b->val) return mkConst(0, w);
        break;
    case EURem:
        if (isC(b) && w <= 64 && b->val && (b->val & (b->val - 1)) == 0)
            return mkBin(EAnd, mkConst(b->val - 1, w), a);
        if (isC(b) && w <= 64 && b->val && a->may < b->val) return a;
        break;
    case ESDiv: case ESRem:
        if (w <= 64 && !(a->may >> (w - 1)) && !(b->may >> (w - 1)))
            return mkBin(k == ESDiv ? EUDiv : EURem, a, b);
        break;
    case EAnd: {
        if (isZero(a)) return a;
        if (isOnes(a)) return b;
        if (a == b) return a;
        if (w == 1) {
            if (notOf(a) == b || notOf(b) == a) return mkConst(0, 1);
            // absorption in chains (right-nested)
            if (b->k == EAnd && (b->a == a || b->b == a)) return b;
            if (a->k == EAnd && (a->a == b || a->b == b)) return a;
            break;
        }
        if (isC(a) && w <= 64) {
            u64 m = a->val;
            if ((b->may & ~m) == 0) return b;
            if (b->k == EAnd && isC(b->a)) return mkBin(EAnd, mkConst(m & b->a->val, w), b->b);
            // contiguous mask
            unsigned lo = __builtin_ctzll(m);
            u64 t = m >> lo;
            if ((t & (t + 1)) == 0) {
                unsigned n = t == ~0ULL ? 64 : __builtin_ctzll(t + 1);
                Expr* x = mkExtract(b, lo, n);
                if (lo) x = mkConcat(x, mkConst(0, lo));
                return mkZExt(x, w);
            }
            if (b->k == EConcat) {
                unsigned lw = b->b->w;
                return mkConcat(mkBin(EAnd, mkConst(m >> lw, b->a->w), b->a),
                                mkBin(EAnd, mkConst(m, lw), b->b));
            }
            if (b->k == EZExt) return mkZExt(mkBin(EAnd, mkConst(m, b->a->w), b->a), w);
        }
        break;
    }
    case EOr:
        if (isZero(a)) return b;
        if (isOnes(a)) return a;
        if (a == b) return a;
        if (w == 1) {
            if (notOf(a) == b || notOf(b) == a) return mkConst(1, 1);
            if (b->k == EOr && (b->a == a || b->b == a)) return b;
            if (a->k == EOr && (a->a == b || a->b == b)) return a;
            break;
        }
        if (isC(a) && w <= 64 && b->k == EConcat) {
            unsigned lw = b->b->w;
            return mkConcat(mkBin(EOr, mkConst(a->val >> lw, b->a->w), b->a),
                            mkBin(EOr, mkConst(a->val, lw), b->b));
        }
        if (isC(a) && w <= 64 && b->k == EZExt) {
            unsigned lw = b->a->w;
            return mkConcat(mkConst(a->val >> lw, w - lw), mkBin(EOr, mkConst(a->val, lw), b->a));
        }
        if (Expr* d = tryDisjoint(a, b)) return d;
        break;
    case EXor:
        if (isZero(a)) return b;
        if (a == b) return mkConst(0, w);
        if (isC(a) && b->k == EXor && isC(b->a)) return mkBin(EXor, mkBin(EXor, a, b->a), b->b);
        if (!isC(a) && b->k == EXor && isC(b->a)) return mkBin(EXor, b->a, mkBin(EXor, a, b->b));
        if (!isC(a) && a->k == EXor && isC(a->a)) return mkBin(EXor, a->a, mkBin(EXor, a->b, b));
        if (b->k == EXor && b->a == a) return b->b;
        if (b->k == EXor && b->b == a) return b->a;
        if (a->k == EXor && a->a == b) return a->b;
        if (a->k == EXor && a->b == b) return a->a;
        if (w > 1) if (Expr* d = tryDisjoint(a, b)) return d;
        if (isC(a) && w <= 64 && b->k == EConcat) {
            unsigned lw = b->b->w;
            return mkConcat(mkBin(EXor, mkConst(a->val >> lw, b->a->w), b->a),
                            mkBin(EXor, mkConst(a->val, lw), b->b));
        }
        if (isC(a) && w <= 64 && b->k == EZExt) {
            unsigned lw = b->a->w;
            return mkConcat(mkConst(a->val >> lw, w - lw), mkBin(EXor, mkConst(a->val, lw), b->a));
        }
        break;
    case EShl:
        if (isC(b)) {
            u64 n = b->val;
            if (b->hi || n >= w) return mkConst(0, w);
            if (!n) return a;
            return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        }
        if (isZero(a)) return a;
        break;
    case ELShr:
        if (isC(b)) {
            u64 n = b->val;
            if (b->hi || n >= w) return mkConst(0, w);
            if (!n) return a;
            return mkZExt(mkExtract(a, n, w - n), w);
        }
        if (isZero(a)) return a;
        break;
    case EAShr:
        if (isC(b)) {
            u64 n = b->val;
            if (b->hi || n >= w) n = w - 1;
            if (!n) return a;
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        break;
    case EEq:
        if (a == b) return mkConst(1, 1);
        if (w == 1) {
            if (isC(a)) return a->val ? b : mkNot(b);
            return mkNot(mkBin(EXor, a, b));
        }
        if (isC(a)) {
            if (w <= 64 && (a->val & ~b->may)) return mkConst(0, 1);
            switch (b->k) {
            case EZExt: {
                unsigned lw = b->a->w;
                Expr* hi = mkExtract(a, lw, w - lw);
                if (!isZero(hi)) return mkConst(0, 1);
                return mkEq(mkExtract(a, 0, lw), b->a);
            }
            case ESExt: {
                unsigned lw = b->a->w;
                Expr* lo = mkExtract(a, 0, lw);
                if (mkSExt(lo, w) != a) return mkConst(0, 1);
                return mkEq(lo, b->a);
            }
            case EConcat: {
                unsigned lw = b->b->w;
                return mkBin(EAnd, mkEq(mkExtract(a, lw, w - lw), b->a),
                             mkEq(mkExtract(a, 0, lw), b->b));
            }
            case EAdd:
                if (isC(b->a)) return mkEq(mkSub(a, b->a), b->b);
                break;
            case EXor:
                if (isC(b->a)) return mkEq(mkBin(EXor, a, b->a), b->b);
                if (isZero(a)) return mkEq(b->a, b->b);
                break;
            case EIte:
                // one const leaf different from the constant
                if (isC(b->b) && b->b != a) return mkBin(EAnd, mkNot(b->a), mkEq(a, b->c));
                if (isC(b->c) && b->c != a) return mkBin(EAnd, b->a, mkEq(a, b->b));
                if (b->b == a) return mkBin(EOr, b->a, mkEq(a, b->c));
                if (b->c == a) return mkBin(EOr, mkNot(b->a), mkEq(a, b->b));
                break;
            default: break;
            }
        } else {
            if (a->k == EZExt && b->k == EZExt) {
                if (a->a->w == b->a->w) return mkEq(a->a, b->a);
                unsigned mw2 = std::max(a->a->w, b->a->w);
                return mkEq(mkZExt(a->a, mw2), mkZExt(b->a, mw2));
            }
            if (a->k == ESExt && b->k == ESExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->k == EConcat && b->k == EConcat && a->b->w == b->b->w)
                return mkBin(EAnd, mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->k == EAdd && b->k == EAdd) {
                if (a->a == b->a) return mkEq(a->b, b->b);
                if (a->b == b->b) return mkEq(a->a, b->a);
            }
            if (b->k == EAdd && b->b == a && isC(b->a)) return mkConst(0, 1); // nonzero const
            if (a->k == EAdd && a->b == b && isC(a->a)) return mkConst(0, 1);
            if (a->k == EXor && b->k == EXor) {
                if (a->a == b->a) return mkEq(a->b, b->b);
                if (a->b == b->b) return mkEq(a->a, b->a);
            }
        }
        break;
    case EUlt:
        if (a == b) return mkConst(0, 1);
        if (isZero(b)) return mkConst(0, 1);
        if (isZero(a)) return mkNot(mkEq(a, b));
        if (w <= 64) {
            if (isC(b) && a->may < b->val) return mkConst(1, 1);
            if (isC(b) && b->val == 1) return mkEq(mkConst(0, w), a);
            if (isC(b) && a->hard && umaxExpr(a) < b->val) return mkConst(1, 1);
            if (isC(a) && b->may <= a->val) return mkConst(0, 1);
            if (isC(a) && b->hard && umaxExpr(b) <= a->val) return mkConst(0, 1);
            if (isC(a) && a->val == maskw(w)) return mkConst(0, 1);
        }
        if (w == 1) return mkBin(EAnd, mkNot(a), b);
        if (a->k == EZExt && b->k == EZExt) {
            unsigned mw2 = std::max(a->a->w, b->a->w);
            return mkBin(EUlt, mkZExt(a->a, mw2), mkZExt(b->a, mw2));
        }
        if (w <= 64 && isC(b) && a->k == EZExt) // fits because may check above failed
            return mkBin(EUlt, a->a, mkConst(b->val, a->a->w));
        if (w <= 64 && isC(a) && b->k == EZExt)
            return mkBin(EUlt, mkConst(a->val, b->a->w), b->a);
        if (a->k == EConcat && b->k == EConcat && a->b->w == b->b->w && a->a == b->a)
            return mkBin(EUlt, a->b, b->b);
        break;
    case ESlt:
        if (a == b) return mkConst(0, 1);
        if (w == 1) return mkBin(EAnd, a, mkNot(b));
        if (w <= 64) {
            bool na = (a->may >> (w - 1)) & 1, nb = (b->may >> (w - 1)) & 1;
            if (!na && !nb) return mkBin(EUlt, a, b);
            if (isC(b) && !na && sext64(b->val, w) < 0) return mkConst(0, 1);
            if (isC(a) && !nb && sext64(a->val, w) < 0) return mkConst(1, 1);
            if (isZero(b)) return mkExtract(a, w - 1, 1);
        }
        if (a->k == ESExt && b->k == ESExt && a->a->w == b->a->w)
            return mkBin(ESlt, a->a, b->a);
        break;
    default: break;
    }
    return intern(k, rw, a, b, nullptr, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (Expr* n = notOf(c)) return mkIte(n, b, a);
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
        if (isC(a)) return a->val ? mkBin(EOr, c, b) : mkBin(EAnd, mkNot(c), b);
        if (isC(b)) return b->val ? mkBin(EOr, mkNot(c), a) : mkBin(EAnd, c, a);
    }
    if (a->k == EIte && a->a == c) return mkIte(c, a->b, b);
    if (b->k == EIte && b->a == c) return mkIte(c, a, b->c);
    if (b->k == EIte && b->b == a) return mkIte(mkBin(EOr, c, b->a), a, b->c);
    return intern(EIte, a->w, c, a, b, 0, 0);
}

Expr* mkExtractRaw(Expr* e, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128)
        return mkC128((cval(hi) << lo->w) | cval(lo), w);
    if (isZero(hi)) return mkZExt(lo, w);
    if (hi->k == EConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == EZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (lo->k == EZExt && lo->w <= 128) // expose the zero part as its own segment
        return mkConcat(hi, intern(EConcat, lo->w, mkConst(0, lo->w - lo->a->w), lo->a, nullptr, 0, 0));
    // merge with the head of lo
    Expr* h2 = lo->k == EConcat ? lo->a : lo;
    Expr* rest = lo->k == EConcat ? lo->b : nullptr;
    Expr* merged = nullptr;
    if (isC(hi) && isC(h2) && hi->w + h2->w <= 128)
        merged = mkC128((cval(hi) << h2->w) | cval(h2), hi->w + h2->w);
    else if (hi->k == EExtract && h2->k == EExtract && hi->a == h2->a &&
             hi->val == h2->val + h2->w)
        merged = mkExtractRaw(hi->a, h2->val, hi->w + h2->w);
    else if (hi->k == EExtract && hi->a == h2 && hi->val == h2->w) // h2 is full low part? (not possible)
        merged = nullptr;
    if (merged) return rest ? mkConcat(merged, rest) : merged;
    // Ite with the same condition
    if (hi->k == EIte && lo->k == EIte && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return intern(EConcat, w, hi, lo, nullptr, 0, 0);
}

static Expr* mkExtract0(Expr* e, unsigned off, unsigned w);
// Extract that is kept as a slice of arithmetic (memory cells), so that a
// later load of the whole value gets the original expression back.
Expr* mkExtractRaw(Expr* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (e->k == EAnd || e->k == EOr || e->k == EXor || e->k == EAdd || e->k == EMul || e->k == EIte)
        if (!(e->w <= 64 && ((e->may >> off) & maskw(w)) == 0) && !(e->k == EIte && iteConstLeaves(e, ITE_BUDGET) < ITE_BUDGET))
            return intern(EExtract, w, e, nullptr, nullptr, off, 0);
    return mkExtract(e, off, w);
}
static std::unordered_map<u64, Expr*> exMemo;
Expr* mkExtract(Expr* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (off + w > e->w) { fprintf(stderr, "jsym: bad extract\n"); abort(); }
    if (e->k == EAnd || e->k == EOr || e->k == EXor || e->k == EAdd || e->k == EMul || e->k == EIte) {
        u64 key = ((u64)e->id << 32) | (off << 16) | w;
        auto it = exMemo.find(key);
        if (it != exMemo.end()) return it->second;
        Expr* r = mkExtract0(e, off, w);
        exMemo[key] = r;
        return r;
    }
    return mkExtract0(e, off, w);
}
static Expr* mkExtract0(Expr* e, unsigned off, unsigned w) {
    switch (e->k) {
    case EConst: {
        u128 v = cval(e) >> off;
        if (w < 128) v &= (((u128)1 << w) - 1);
        return mkC128(v, w);
    }
    case EExtract: return mkExtract(e->a, e->val + off, w);
    case EConcat: {
        unsigned lw = e->b->w;
        if (off >= lw) return mkExtract(e->a, off - lw, w);
        if (off + w <= lw) return mkExtract(e->b, off, w);
        return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case EZExt: {
        unsigned lw = e->a->w;
        if (off >= lw) return mkConst(0, w);
        if (off + w <= lw) return mkExtract(e->a, off, w);
        return mkZExt(mkExtract(e->a, off, lw - off), w);
    }
    case ESExt: {
        unsigned lw = e->a->w;
        if (off + w <= lw) return mkExtract(e->a, off, w);
        if (off < lw) return mkSExt(mkExtract(e->a, off, lw - off), w);
        return mkSExt(mkExtract(e->a, lw - 1, 1), w);
    }
    case EAnd: case EOr: case EXor:
        return mkBin(e->k, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case EAdd:
        if (off == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case EMul:
        if (off == 0 && isC(e->a)) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case EIte:
        if (iteConstLeaves(e, ITE_BUDGET) < ITE_BUDGET)
            return mapIte(e, [&](Expr* x) { return mkExtract(x, off, w); });
        if (e->b->k != EIte && e->c->k != EIte)
            return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
        break;
    default: break;
    }
    return intern(EExtract, w, e, nullptr, nullptr, off, 0);
}

Expr* mkZExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e) && w <= 128) return mkConst(e->val, w, e->hi);
    if (e->k == EZExt) return mkZExt(e->a, w);
    if (e->k == EConcat && isZero(e->a)) return mkZExt(e->b, w);
    if (e->k == EIte && iteConstLeaves(e, ITE_BUDGET) < ITE_BUDGET)
        return mapIte(e, [&](Expr* x) { return mkZExt(x, w); });
    return intern(EZExt, w, e, nullptr, nullptr, 0, 0);
}
Expr* mkSExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) {
        if (w <= 64) return mkConst((u64)sext64(e->val, e->w), w);
        if (e->w <= 64 && w <= 128) {
            i64 s = sext64(e->val, e->w);
            return mkC128((u128)(__int128)s, w);
        }
    }
    if (e->w <= 64 && !((e->may >> (e->w - 1)) & 1)) return mkZExt(e, w);
    if (e->k == ESExt) return mkSExt(e->a, w);
    if (e->k == EIte && iteConstLeaves(e, ITE_BUDGET) < ITE_BUDGET)
        return mapIte(e, [&](Expr* x) { return mkSExt(x, w); });
    if (e->w == 1 && w <= 64) return mkIte(e, mkConst(~0ULL, w), mkConst(0, w));
    return intern(ESExt, w, e, nullptr, nullptr, 0, 0);
}

// ---------------------------------------------------------------- evaluation
static u64 gEpoch = 1;
u64 freshEpoch() { return ++gEpoch; }

static std::unordered_map<u32, u128> wideCache;
static u64 wideEpoch = 0;
static u128 evalWide(Expr* e, const Model& m);

u64 evalExpr(Expr* e, const Model& m) {
    if (e->k == EConst) return e->val;
    if (!e->syms && e->w <= 64 && e->k == EConst) return e->val;
    if (e->evEpoch == m.epoch) return e->ev;
    u64 r = 0;
    u64 mw = maskw(e->w);
    switch (e->k) {
    case ESym: r = e->val < m.v.size() ? (m.v[e->val] & mw) : 0; break;
    case EIte: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case EConcat: r = ((evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m)) & mw; break;
    case EExtract:
        if (e->a->w > 64) r = (u64)(evalWide(e->a, m) >> e->val) & mw;
        else r = (evalExpr(e->a, m) >> e->val) & mw;
        break;
    case EZExt: r = evalExpr(e->a, m); break;
    case ESExt: r = (u64)sext64(evalExpr(e->a, m), e->a->w) & mw; break;
    default: {
        if (e->a->w > 64) {
            u128 x = evalWide(e->a, m), y = evalWide(e->b, m);
            Expr* f = foldWide(e->k, mkC128(x, e->a->w), mkC128(y, e->a->w));
            if (!f) { fprintf(stderr, "jsym: wide eval\n"); abort(); }
            r = f->val;
            break;
        }
        bool ok;
        r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w, ok);
        if (!ok) { fprintf(stderr, "jsym: eval\n"); abort(); }
    }
    }
    e->ev = r;
    e->evEpoch = m.epoch;
    return r;
}
static u128 evalWide(Expr* e, const Model& m) {
    if (e->w <= 64) return evalExpr(e, m);
    if (e->k == EConst) return cval(e);
    if (e->w > 128) { fprintf(stderr, "jsym: >128-bit eval\n"); abort(); }
    if (wideEpoch != m.epoch) { wideCache.clear(); wideEpoch = m.epoch; }
    auto it = wideCache.find(e->id);
    if (it != wideCache.end()) return it->second;
    u128 mw = e->w == 128 ? ~(u128)0 : (((u128)1 << e->w) - 1);
    u128 r = 0;
    switch (e->k) {
    case EIte: r = evalExpr(e->a, m) ? evalWide(e->b, m) : evalWide(e->c, m); break;
    case EConcat: r = ((evalWide(e->a, m) << e->b->w) | evalWide(e->b, m)) & mw; break;
    case EExtract: r = (evalWide(e->a, m) >> e->val) & mw; break;
    case EZExt: r = evalWide(e->a, m); break;
    case ESExt: {
        u128 x = evalWide(e->a, m);
        u128 sb = (u128)1 << (e->a->w - 1);
        r = ((x ^ sb) - sb) & mw; break;
    }
    default: {
        Expr* f = foldWide(e->k, mkC128(evalWide(e->a, m), e->w), mkC128(evalWide(e->b, m), e->w));
        if (!f) { fprintf(stderr, "jsym: wide eval\n"); abort(); }
        r = cval(f);
    }
    }
    wideCache[e->id] = r;
    return r;
}

std::string exprStr(Expr* e, int d) {
    static const char* n[] = {"c","s","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","cat","ext","zx","sx"};
    char buf[64];
    if (isC(e)) { snprintf(buf, 64, "%lx:%d", (unsigned long)e->val, e->w); return buf; }
    if (e->k == ESym) return symName(e->val);
    if (d <= 0) return "...";
    std::string s = std::string("(") + n[e->k];
    if (e->k == EExtract) { snprintf(buf, 64, "[%lu+%d]", (unsigned long)e->val, e->w); s += buf; }
    if (e->a) s += " " + exprStr(e->a, d - 1);
    if (e->b) s += " " + exprStr(e->b, d - 1);
    if (e->c) s += " " + exprStr(e->c, d - 1);
    return s + ")";
}
