#include "exec.h"
#include <cmath>
#include <cstring>
#include <cinttypes>
#include <cctype>

using namespace llvm;

typedef std::vector<Val> Args;
#define BI(name) static void name(Exec& E, State& s, DInst& I, Args& a)

static u64 A64(Exec& E, State& s, Args& a, unsigned i) { return E.cz(s, a[i], 64); }
static u64 A32(Exec& E, State& s, Args& a, unsigned i) { return E.cz(s, a[i], 32) & 0xffffffff; }

BI(b_nop) { if (I.n) for (u32 j = 0; j < I.n; ++j) E.fr(s).r[I.dst + j] = VC(0); (void)a; }

// ------------------------------------------------------------ harness API
u64 Exec::newInput(State& s, const std::string& name, unsigned w, Expr*& out) {
    static std::map<std::pair<u64, unsigned>, Expr*> cache;
    auto key = std::make_pair((u64)s.inputs.size(), w);
    auto it = cache.find(key);
    if (it == cache.end()) it = cache.emplace(key, mkSym(w, "i" + std::to_string(key.first) + "_" + std::to_string(w))).first;
    out = it->second;
    s.inputs.push_back({name, out, 0, w});
    // the model may hold a stale value for a reused symbol; any value satisfies the
    // path condition because the symbol does not occur in it yet
    return 0;
}
BI(b_sym_bytes) {
    u64 p = A64(E, s, a, 0), n = A64(E, s, a, 1), nm = A64(E, s, a, 2);
    std::string name = E.cstr(s, nm);
    if (!n) return;
    u64 off;
    E.resolveC(s, p, n, true, off);
    for (u64 i = 0; i < n; ++i) {
        Expr* e;
        E.newInput(s, name + "[" + std::to_string(i) + "]", 8, e);
        E.store(s, VC(p + i), Val{0, e}, 8);
    }
}
static unsigned bitsFor(u64 x) { unsigned b = 0; while (x) { b++; x >>= 1; } return b ? b : 1; }
static void setSym(State& st, Expr* e, u64 v) {
    auto m = std::make_shared<Model>(*st.model);
    if (m->v.size() <= e->val) m->v.resize(e->val + 1, 0);
    m->v[e->val] = v;
    m->epoch = freshEpoch();
    st.model = m;
}
BI(b_sym_range) {   // u64 sym_range(lo, hi, name): lo <= x <= hi
    u64 lo = A64(E, s, a, 0), hi = A64(E, s, a, 1);
    std::string name = E.cstr(s, A64(E, s, a, 2));
    if (lo > hi) E.kill(s);
    if (lo == hi) { s.inputs.push_back({name, nullptr, lo, 64}); E.setRes(s, I, VC(lo)); return; }
    unsigned w = bitsFor(hi);
    Expr* e;
    E.newInput(s, name, w, e);
    setSym(s, e, lo);
    if (lo) E.addCons(s, mkNot(mkBin(EUlt, e, mkConst(lo, w))));
    if (hi != maskw(w)) E.addCons(s, mkNot(mkBin(EUlt, mkConst(hi, w), e)));
    E.setRes(s, I, E.mkV(mkZExt(e, 64)));
}
BI(b_sym_u64) {
    Expr* e;
    E.newInput(s, E.cstr(s, A64(E, s, a, 0)), 64, e);
    E.setRes(s, I, Val{0, e});
}
BI(b_sym_choose) {  // forks over every value lo..hi
    u64 lo = A64(E, s, a, 0), hi = A64(E, s, a, 1);
    std::string name = E.cstr(s, A64(E, s, a, 2));
    if (lo > hi) E.kill(s);
    if (lo == hi) { s.inputs.push_back({name, nullptr, lo, 64}); E.setRes(s, I, VC(lo)); return; }
    unsigned w = bitsFor(hi);
    Expr* e;
    E.newInput(s, name, w, e);
    for (u64 v = hi; v > lo; --v) {
        State* n = E.clone(s);
        E.addCons(*n, mkEq(e, mkConst(v, w)));
        setSym(*n, e, v);
        E.setRes(*n, I, VC(v));
        if (I.e0) { E.jump(*n, I.e0); } else E.fr(*n).ip++;
        E.work.push_back(n);
    }
    E.addCons(s, mkEq(e, mkConst(lo, w)));
    setSym(s, e, lo);
    E.setRes(s, I, VC(lo));
}
BI(b_sym_assume) {
    Expr* c = mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32)));
    if (!E.assume(s, c)) { E.pathsAssumed++; E.kill(s); }
}
BI(b_sym_assert) {
    E.asserts++;
    std::string msg = E.cstr(s, A64(E, s, a, 1));
    Expr* c = mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32)));
    if (isC(c)) {
        if (!c->val) E.fail(s, "assert", msg);
        return;
    }
    E.assertQ++;
    if (!evalExpr(c, *s.model)) {
        E.violation(s, "assert", msg);
        if (!E.assume(s, c)) E.kill(s);
        return;
    }
    if (s.consIds.count(c->id)) return;
    Model m = *s.model;
    if (E.feasible(s, mkNot(c), &m)) E.violation(s, "assert", msg, &m);
    E.addCons(s, c);
}
BI(b_sym_cover) { s.cover.insert((u32)A32(E, s, a, 0)); }
BI(b_sym_observe) { s.obs.push_back(a[0]); }
BI(b_sym_concretize) { E.setRes(s, I, VC(A64(E, s, a, 0))); }
BI(b_sym_arg) { E.setRes(s, I, VC(E.cfg.arg)); }
BI(b_sym_tier) { E.setRes(s, I, VC(getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"))); }
BI(b_sym_is_replay) { E.setRes(s, I, VC(0)); }
BI(b_sym_live_heap) { E.setRes(s, I, VC((u64)s.liveHeap)); }
BI(b_sym_end) { E.pathDone(s); E.kill(s); }
BI(b_sym_reject) { E.pathsAssumed++; E.kill(s); }
BI(b_sym_issym) { E.setRes(s, I, VC(a[0].e != nullptr)); }
BI(b_sym_fail) { E.asserts++; E.fail(s, "assert", E.cstr(s, A64(E, s, a, 0))); }
// boolean/ite without forking
BI(b_sym_ite) {
    Expr* c = mkNot(mkEq(E.ex(a[0], 32), mkConst(0, 32)));
    E.setRes(s, I, E.mkV(mkIte(c, E.ex(a[1], 64), E.ex(a[2], 64))));
}
BI(b_sym_print) {
    fprintf(stderr, "[print] %s = ", E.cstr(s, A64(E, s, a, 0)).c_str());
    if (a[1].e) fprintf(stderr, "%s (now %lx)\n", exprStr(a[1].e).c_str(), (unsigned long)evalExpr(a[1].e, *s.model));
    else fprintf(stderr, "%lu (0x%lx)\n", (unsigned long)a[1].c, (unsigned long)a[1].c);
}
BI(b_sym_readable) { // 1 if [p, p+n) lies inside one live object
    u64 p = A64(E, s, a, 0), n = A64(E, s, a, 1);
    Obj* o = s.mem.find(p);
    E.setRes(s, I, VC(o && !o->freed && p >= o->base && p - o->base <= o->size && n <= o->size - (p - o->base)));
}

// ------------------------------------------------------------ memory functions
static void doMemcpy(Exec& E, State& s, u64 d, u64 src, u64 n) {
    if (n) E.memCopy(s, d, src, n);
}
BI(b_memcpy) {
    u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1), n = A64(E, s, a, 2);
    doMemcpy(E, s, d, p, n);
    E.setRes(s, I, VC(d));
}
BI(b_mempcpy) {
    u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1), n = A64(E, s, a, 2);
    doMemcpy(E, s, d, p, n);
    E.setRes(s, I, VC(d + n));
}
BI(b_memset) {
    u64 d = A64(E, s, a, 0), n = A64(E, s, a, 2);
    Val v = a[1];
    if (n) {
        u64 off;
        Obj* o = E.resolveC(s, d, n, true, off);
        o = s.mem.writable(o);
        if (v.e) {
            Expr* b = v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e;
            for (u64 i = 0; i < n; ++i) E.writeObj(o, off + i, E.mkV(b), 8);
        } else {
            memset(o->d + off, (int)v.c, n);
            if (o->s) memset(o->s + off, 0, n * sizeof(Expr*));
        }
    }
    E.setRes(s, I, VC(d));
}
static Val cmpBytes(Exec& E, State& s, u64 p, u64 q, u64 n) {
    if (!n) return VC(0);
    u64 po, qo;
    Obj* x = E.resolveC(s, p, n, false, po);
    Obj* y = E.resolveC(s, q, n, false, qo);
    bool sym = false;
    if (x->s) for (u64 i = 0; i < n && !sym; ++i) sym = x->s[po + i] != nullptr;
    if (y->s) for (u64 i = 0; i < n && !sym; ++i) sym = y->s[qo + i] != nullptr;
    if (!sym) {
        int r = memcmp(x->d + po, y->d + qo, n);
        return VC(r < 0 ? 0xffffffffu : r > 0);
    }
    Expr* r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr* b = E.ex(E.readObj(x, po + i, 8), 8);
        Expr* c = E.ex(E.readObj(y, qo + i, 8), 8);
        Expr* lt = mkBin(EUlt, b, c);
        Expr* eq = mkEq(b, c);
        Expr* diff = mkIte(lt, mkConst(0xffffffff, 32), mkConst(1, 32));
        r = mkIte(eq, r, diff);
    }
    return E.mkV(r);
}
BI(b_memcmp) {
    u64 p = A64(E, s, a, 0), q = A64(E, s, a, 1), n = A64(E, s, a, 2);
    E.setRes(s, I, cmpBytes(E, s, p, q, n));
}
BI(b_memchr) {
    u64 p = A64(E, s, a, 0), n = A64(E, s, a, 2);
    u8 c = (u8)A32(E, s, a, 1);
    u64 r = 0;
    for (u64 i = 0; i < n; ++i) {
        u8 x = (u8)E.cz(s, E.load(s, VC(p + i), 8), 8);
        if (x == c) { r = p + i; break; }
    }
    E.setRes(s, I, VC(r));
}
// The object's bytes from p on when they are concrete up to and including a NUL.
static const char* plainStr(State& s, u64 p) {
    Obj* o = s.mem.find(p);
    if (!o || o->freed || p < o->base || p - o->base >= o->size) return nullptr;
    u64 off = p - o->base;
    const void* z = memchr(o->d + off, 0, o->size - off);
    if (!z) return nullptr;
    if (o->s) { u64 e = (const u8*)z - o->d; for (u64 i = off; i <= e; ++i) if (o->s[i]) return nullptr; }
    return (const char*)o->d + off;
}
static u64 slen(Exec& E, State& s, u64 p, u64 maxn = ~0ULL) {
    u64 i = 0;
    if (const char* c = plainStr(s, p)) return strnlen(c, maxn);
    for (; i < maxn; ++i) {
        Val v = E.load(s, VC(p + i), 8);
        bool z = v.e ? E.decide(s, mkEq(v.e, mkConst(0, 8))) : (v.c & 0xff) == 0;
        if (z) break;
    }
    return i;
}
BI(b_strlen) { u64 p = A64(E, s, a, 0); E.setRes(s, I, VC(slen(E, s, p))); }
BI(b_strnlen) { u64 p = A64(E, s, a, 0), n = A64(E, s, a, 1); E.setRes(s, I, VC(slen(E, s, p, n))); }
BI(b_strcmp) {
    u64 p = A64(E, s, a, 0), q = A64(E, s, a, 1);
    const char *pc = plainStr(s, p), *qc = plainStr(s, q);
    if (pc && qc) { int r = strcmp(pc, qc); E.setRes(s, I, VC(r < 0 ? 0xffffffffu : r > 0)); return; }
    std::string x = E.cstr(s, p), y = E.cstr(s, q);
    int r = strcmp(x.c_str(), y.c_str());
    E.setRes(s, I, VC(r < 0 ? 0xffffffffu : r > 0));
}
BI(b_strncmp) {
    u64 p = A64(E, s, a, 0), q = A64(E, s, a, 1), n = A64(E, s, a, 2);
    const char *pc = plainStr(s, p), *qc = plainStr(s, q);
    if (pc && qc) { int r = strncmp(pc, qc, n); E.setRes(s, I, VC(r < 0 ? 0xffffffffu : r > 0)); return; }
    std::string x = E.cstr(s, p, n), y = E.cstr(s, q, n);
    int r = strncmp(x.c_str(), y.c_str(), n);
    E.setRes(s, I, VC(r < 0 ? 0xffffffffu : r > 0));
}
BI(b_strcpy) {
    u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1);
    u64 n = slen(E, s, p) + 1;
    doMemcpy(E, s, d, p, n);
    E.setRes(s, I, VC(d));
}
BI(b_strncpy) {
    u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1), n = A64(E, s, a, 2);
    u64 l = slen(E, s, p, n);
    doMemcpy(E, s, d, p, l);
    for (u64 i = l; i < n; ++i) E.store(s, VC(d + i), VC(0), 8);
    E.setRes(s, I, VC(d));
}
BI(b_strcat) {
    u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1);
    u64 l = slen(E, s, d), n = slen(E, s, p) + 1;
    doMemcpy(E, s, d + l, p, n);
    E.setRes(s, I, VC(d));
}
BI(b_strchr) {
    u64 p = A64(E, s, a, 0); u8 c = (u8)A32(E, s, a, 1);
    if (const char* t = plainStr(s, p)) { const char* z = strchr(t, c); E.setRes(s, I, VC(z ? p + (z - t) : 0)); return; }
    for (u64 i = 0;; ++i) {
        u8 x = (u8)E.cz(s, E.load(s, VC(p + i), 8), 8);
        if (x == c) { E.setRes(s, I, VC(p + i)); return; }
        if (!x) break;
    }
    E.setRes(s, I, VC(0));
}
BI(b_strrchr) {
    u64 p = A64(E, s, a, 0); u8 c = (u8)A32(E, s, a, 1);
    u64 r = 0;
    for (u64 i = 0;; ++i) {
        u8 x = (u8)E.cz(s, E.load(s, VC(p + i), 8), 8);
        if (x == c) r = p + i;
        if (!x) break;
    }
    E.setRes(s, I, VC(r));
}
BI(b_strstr) {
    u64 p = A64(E, s, a, 0), q = A64(E, s, a, 1);
    const char *pc = plainStr(s, p), *qc = plainStr(s, q);
    if (pc && qc) { const char* z = strstr(pc, qc); E.setRes(s, I, VC(z ? p + (z - pc) : 0)); return; }
    std::string x = E.cstr(s, p), y = E.cstr(s, q);
    size_t i = x.find(y);
    E.setRes(s, I, VC(i == std::string::npos ? 0 : p + i));
}
// ------------------------------------------------------------ allocation
BI(b_malloc) { u64 n = A64(E, s, a, 0); E.setRes(s, I, VC(E.heapAlloc(s, n, OMalloc, 16, I.I))); }
BI(b_calloc) {
    u64 n = A64(E, s, a, 0) * A64(E, s, a, 1);
    u64 p = E.heapAlloc(s, n, OMalloc, 16, I.I);
    if (p) { Obj* o = s.mem.find(p); memset(o->d, 0, n); }
    E.setRes(s, I, VC(p));
}
BI(b_realloc) {
    u64 p = A64(E, s, a, 0), n = A64(E, s, a, 1);
    if (!p) { E.setRes(s, I, VC(E.heapAlloc(s, n, OMalloc, 16, I.I))); return; }
    Obj* o = s.mem.find(p);
    if (!o || o->freed || o->base != p || o->kind != OMalloc) E.fail(s, "bad-free", "realloc of an invalid pointer");
    u64 q = E.heapAlloc(s, n, OMalloc, 16, I.I);
    E.memCopy(s, q, p, std::min<u64>(n, o->size));
    E.heapFree(s, p, OMalloc);
    E.setRes(s, I, VC(q));
}
BI(b_free) { E.heapFree(s, A64(E, s, a, 0), OMalloc); }
BI(b_posix_memalign) {
    u64 pp = A64(E, s, a, 0), al = A64(E, s, a, 1), n = A64(E, s, a, 2);
    u64 p = E.heapAlloc(s, n, OMalloc, std::max<u64>(al, 32), I.I);
    E.store(s, VC(pp), VC(p), 64);
    E.setRes(s, I, VC(0));
}
BI(b_aligned_alloc) {
    u64 n = A64(E, s, a, 1);
    E.setRes(s, I, VC(E.heapAlloc(s, n, OMalloc, 64, I.I)));
}
BI(b_new) { u64 n = A64(E, s, a, 0); E.setRes(s, I, VC(E.heapAlloc(s, n, ONew, 16, I.I))); }
BI(b_newarr) { u64 n = A64(E, s, a, 0); E.setRes(s, I, VC(E.heapAlloc(s, n, ONewArr, 16, I.I))); }
BI(b_newal) { u64 n = A64(E, s, a, 0); E.setRes(s, I, VC(E.heapAlloc(s, n, ONew, 64, I.I))); }
BI(b_delete) { E.heapFree(s, A64(E, s, a, 0), ONew); }
BI(b_deletearr) { E.heapFree(s, A64(E, s, a, 0), ONewArr); }

// ------------------------------------------------------------ numbers and strings
BI(b_atoi) { u64 p = A64(E, s, a, 0); E.setRes(s, I, VC((u32)atoi(E.cstr(s, p).c_str()))); }
BI(b_atol) { u64 p = A64(E, s, a, 0); E.setRes(s, I, VC((u64)atoll(E.cstr(s, p).c_str()))); }
template <bool sg> static void strtox(Exec& E, State& s, DInst& I, Args& a) {
    u64 p = A64(E, s, a, 0), ep = A64(E, s, a, 1);
    int base = (int)A32(E, s, a, 2);
    std::string x = E.cstr(s, p);
    char* e;
    u64 r = sg ? (u64)strtoll(x.c_str(), &e, base) : (u64)strtoull(x.c_str(), &e, base);
    if (ep) E.store(s, VC(ep), VC(p + (e - x.c_str())), 64);
    E.setRes(s, I, VC(r));
}
template <int (*fn)(int)> static void ctype1(Exec& E, State& s, DInst& I, Args& a) {
    E.setRes(s, I, VC((u32)fn((int)A32(E, s, a, 0))));
}
std::string Exec::format(State& s, const std::string& f, const std::function<Val(unsigned)>& next) {
    std::string out;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { out += f[i]; continue; }
        if (i + 1 < f.size() && f[i + 1] == '%') { out += '%'; ++i; continue; }
        std::string spec = "%";
        ++i;
        while (i < f.size() && strchr("-+ #0", f[i])) spec += f[i++];
        auto num = [&]() {
            if (i < f.size() && f[i] == '*') { spec += std::to_string((int)cz(s, next(32), 32)); ++i; }
            else while (i < f.size() && isdigit((unsigned char)f[i])) spec += f[i++];
        };
        num();
        if (i < f.size() && f[i] == '.') { spec += '.'; ++i; num(); }
        unsigned w = 32;
        while (i < f.size() && strchr("hlzjtqL", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't' || f[i] == 'q') w = 64; ++i; }
        if (i >= f.size()) break;
        char c = f[i];
        char buf[512];
        switch (c) {
        case 'd': case 'i': {
            i64 v = sext64(cz(s, next(w), w), w);
            snprintf(buf, sizeof buf, (spec + "ld").c_str(), (long)v); out += buf; break;
        }
        case 'u': case 'x': case 'X': case 'o': {
            u64 v = cz(s, next(w), w) & maskw(w);
            snprintf(buf, sizeof buf, (spec + "l" + c).c_str(), (unsigned long)v); out += buf; break;
        }
        case 'c': { int v = (int)cz(s, next(32), 32); snprintf(buf, sizeof buf, (spec + "c").c_str(), v); out += buf; break; }
        case 'p': { u64 v = cz(s, next(64), 64); snprintf(buf, sizeof buf, "0x%lx", (unsigned long)v); out += buf; break; }
        case 'f': case 'g': case 'e': case 'F': case 'G': {
            u64 v = cz(s, next(64), 64); double d; memcpy(&d, &v, 8);
            snprintf(buf, sizeof buf, (spec + c).c_str(), d); out += buf; break;
        }
        case 's': {
            u64 p = cz(s, next(64), 64);
            // honour a precision: the string need not be terminated
            size_t dot = spec.find('.');
            u64 mx = dot == std::string::npos ? (1 << 16) : (u64)atoi(spec.c_str() + dot + 1);
            std::string v = p ? cstr(s, p, mx) : "(null)";
            std::vector<char> big(v.size() + 600);
            snprintf(big.data(), big.size(), (spec + "s").c_str(), v.c_str()); out += big.data(); break;
        }
        default: break;
        }
    }
    return out;
}
static void putStr(Exec& E, State& s, u64 d, const std::string& x, u64 lim) {
    if (!lim) return;
    u64 n = std::min<u64>(x.size(), lim - 1);
    for (u64 i = 0; i < n; ++i) E.store(s, VC(d + i), VC((u8)x[i]), 8);
    E.store(s, VC(d + n), VC(0), 8);
}
BI(b_snprintf) {
    u64 d = A64(E, s, a, 0), lim = A64(E, s, a, 1);
    std::string f = E.cstr(s, A64(E, s, a, 2));
    size_t k = 3;
    std::string r = E.format(s, f, [&](unsigned) { return k < a.size() ? a[k++] : VC(0); });
    putStr(E, s, d, r, lim);
    E.setRes(s, I, VC((u32)r.size()));
}
BI(b_sprintf) {
    u64 d = A64(E, s, a, 0);
    std::string f = E.cstr(s, A64(E, s, a, 1));
    size_t k = 2;
    std::string r = E.format(s, f, [&](unsigned) { return k < a.size() ? a[k++] : VC(0); });
    putStr(E, s, d, r, 1 << 20);
    E.setRes(s, I, VC((u32)r.size()));
}
static std::function<Val(unsigned)> vaNext(Exec& E, State& s, u64 ap) {
    return [&E, &s, ap](unsigned) {
        u64 p = E.load(s, VC(ap + 8), 64).c;
        Val v = E.load(s, VC(p), 64);
        E.store(s, VC(ap + 8), VC(p + 8), 64);
        return v;
    };
}
BI(b_vsnprintf) {
    u64 d = A64(E, s, a, 0), lim = A64(E, s, a, 1);
    std::string f = E.cstr(s, A64(E, s, a, 2));
    u64 ap = A64(E, s, a, 3);
    std::string r = E.format(s, f, vaNext(E, s, ap));
    putStr(E, s, d, r, lim);
    E.setRes(s, I, VC((u32)r.size()));
}
BI(b_va_start) {
    u64 ap = A64(E, s, a, 0);
    auto& va = E.fr(s).varargs;
    Obj* o = s.mem.alloc(va.size() * 8 + 8, OStack, 16, nullptr, I.I);
    memset(o->d, 0, o->size);
    u64 base = o->base;
    E.fr(s).allocas.push_back(base);
    for (size_t i = 0; i < va.size(); ++i) {
        Val v = E.fr(s).varargs[i];
        if (v.e && v.e->w < 64) v = E.mkV(mkZExt(v.e, 64));
        E.store(s, VC(base + i * 8), v, 64);
    }
    E.store(s, VC(ap), VC(48), 32);
    E.store(s, VC(ap + 4), VC(176), 32);
    E.store(s, VC(ap + 8), VC(base), 64);
    E.store(s, VC(ap + 16), VC(0), 64);
}
BI(b_va_copy) { u64 d = A64(E, s, a, 0), p = A64(E, s, a, 1); E.memCopy(s, d, p, 24); }

// ------------------------------------------------------------ intrinsics
BI(b_bswap) {
    for (u32 j = 0; j < I.n; ++j) {
        unsigned w = I.n == 1 ? I.w : (unsigned)E.DL->getTypeSizeInBits(I.I->getType()->getScalarType());
        Expr* x = E.ex(a[j], w);
        Expr* r = nullptr;
        for (unsigned k = 0; k < w / 8; ++k) {
            Expr* b = mkExtract(x, k * 8, 8);
            r = r ? mkConcat(r, b) : b;
        }
        E.fr(s).r[I.dst + j] = E.mkV(r);
    }
}
static void need1(Exec& E, State& s, DInst& I) { if (I.n != 1) E.incomplete(s, "vector intrinsic"); }
BI(b_ctpop) { need1(E, s, I);
    if (!a[0].e) { E.setRes(s, I, VC(__builtin_popcountll(a[0].c & maskw(I.w)))); return; }
    Expr* r = mkConst(0, I.w);
    for (unsigned i = 0; i < I.w; ++i) r = mkBin(EAdd, r, mkZExt(mkExtract(a[0].e, i, 1), I.w));
    E.setRes(s, I, E.mkV(r));
}
BI(b_ctlz) { need1(E, s, I);
    if (!a[0].e) { u64 v = a[0].c & maskw(I.w); E.setRes(s, I, VC(v ? __builtin_clzll(v) - (64 - I.w) : I.w)); return; }
    Expr* r = mkConst(I.w, I.w);
    for (unsigned i = 0; i < I.w; ++i) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(I.w - 1 - i, I.w), r);
    E.setRes(s, I, E.mkV(r));
}
BI(b_cttz) { need1(E, s, I);
    if (!a[0].e) { u64 v = a[0].c & maskw(I.w); E.setRes(s, I, VC(v ? __builtin_ctzll(v) : I.w)); return; }
    Expr* r = mkConst(I.w, I.w);
    for (unsigned i = I.w; i-- > 0;) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, I.w), r);
    E.setRes(s, I, E.mkV(r));
}
template <int K> static void minmax(Exec& E, State& s, DInst& I, Args& a) {
    unsigned w = (unsigned)E.DL->getTypeSizeInBits(I.I->getType()->getScalarType());
    for (u32 j = 0; j < I.n; ++j) {
        Expr* x = E.ex(a[j], w); Expr* y = E.ex(a[I.n + j], w);
        Expr* lt = mkBin(K < 2 ? EUlt : ESlt, x, y);
        E.fr(s).r[I.dst + j] = E.mkV((K & 1) ? mkIte(lt, x, y) : mkIte(lt, y, x)); // odd: min
    }
}
BI(b_abs) { need1(E, s, I);
    Expr* x = E.ex(a[0], I.w);
    E.setRes(s, I, E.mkV(mkIte(mkBin(ESlt, x, mkConst(0, I.w)), mkSub(mkConst(0, I.w), x), x)));
}
// {res, overflow}
template <int K> static void ovf(Exec& E, State& s, DInst& I, Args& a) {
    unsigned w = (unsigned)E.DL->getTypeSizeInBits(cast<CallBase>(I.I)->getArgOperand(0)->getType());
    Expr* x = E.ex(a[0], w); Expr* y = E.ex(a[1], w);
    Expr *r = nullptr, *o = nullptr;
    unsigned w2 = K == 2 || K == 5 ? 2 * w : w + 1;
    if (w2 <= 128) {
        bool sg = K >= 3;
        Expr* X = sg ? mkSExt(x, w2) : mkZExt(x, w2);
        Expr* Y = sg ? mkSExt(y, w2) : mkZExt(y, w2);
        switch (K % 3) {
        case 0: r = mkBin(EAdd, x, y); break;
        case 1: r = mkSub(x, y); break;
        case 2: r = mkBin(EMul, x, y); break;
        }
        if (K == 0) o = mkBin(EUlt, r, x);
        else if (K == 1) o = mkBin(EUlt, x, y);
        else {
            Expr* full = K % 3 == 0 ? mkBin(EAdd, X, Y) : K % 3 == 1 ? mkSub(X, Y) : mkBin(EMul, X, Y);
            o = mkNot(mkEq(full, sg ? mkSExt(r, w2) : mkZExt(r, w2)));
        }
    } else E.incomplete(s, "wide overflow op");
    E.fr(s).r[I.dst] = E.mkV(r);
    E.fr(s).r[I.dst + 1] = E.mkV(o);
}
BI(b_usubsat) { need1(E, s, I);
    Expr* x = E.ex(a[0], I.w); Expr* y = E.ex(a[1], I.w);
    E.setRes(s, I, E.mkV(mkIte(mkBin(EUlt, x, y), mkConst(0, I.w), mkSub(x, y))));
}
BI(b_uaddsat) { need1(E, s, I);
    Expr* x = E.ex(a[0], I.w); Expr* y = E.ex(a[1], I.w);
    Expr* r = mkBin(EAdd, x, y);
    E.setRes(s, I, E.mkV(mkIte(mkBin(EUlt, r, x), mkConst(~0ULL, I.w), r)));
}
template <bool left> static void fsh(Exec& E, State& s, DInst& I, Args& a) {
    need1(E, s, I);
    Expr* x = E.ex(a[0], I.w); Expr* y = E.ex(a[1], I.w);
    u64 n = E.cz(s, a[2], I.w) % I.w;
    if (!n) { E.setRes(s, I, left ? a[0] : a[1]); return; }
    if (!left) n = I.w - n;
    // high w bits of (x:y) << n
    Expr* r = mkConcat(mkExtract(x, 0, I.w - n), mkExtract(y, I.w - n, n));
    E.setRes(s, I, E.mkV(r));
}
BI(b_ret0) { (void)a; E.setRes(s, I, VC(0)); }
BI(b_ret1) { (void)a; E.setRes(s, I, VC(1)); }
BI(b_id0) { E.setRes(s, I, a[0]); }
BI(b_objectsize) { bool mn = A64(E, s, a, 1) & 1; E.setRes(s, I, VC(mn ? 0 : ~0ULL)); }
BI(b_trap) { (void)a; E.fail(s, "trap", "llvm.trap executed"); }
Val Exec::tlsAddr(State& s, u64 g) {
    if (s.cur == 0) return VC(g);
    auto& m = s.thr[s.cur].tls;
    auto it = m.find(g);
    if (it != m.end()) return VC(it->second);
    Obj* o = s.mem.find(g);
    const GlobalVariable* gv = nullptr;
    for (auto& p : gaddr) if (p.second == g) gv = dyn_cast<GlobalVariable>(p.first);
    Obj* n = s.mem.alloc(o->size, OGlobal, 64, o->name, nullptr);
    memset(n->d, 0, n->size);
    if (gv && gv->hasInitializer()) initConst(s, n, 0, const_cast<Constant*>(gv->getInitializer()));
    m[g] = n->base;
    return VC(n->base);
}
BI(b_tls) { E.setRes(s, I, E.tlsAddr(s, A64(E, s, a, 0))); }
template <double (*fn)(double)> static void math1(Exec& E, State& s, DInst& I, Args& a) {
    u64 x = E.cz(s, a[0], I.w);
    if (I.w == 64) { double d; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); }
    else { float f; u32 y = (u32)x; memcpy(&f, &y, 4); f = (float)fn(f); memcpy(&y, &f, 4); x = y; }
    E.setRes(s, I, VC(x));
}
template <double (*fn)(double, double)> static void math2(Exec& E, State& s, DInst& I, Args& a) {
    u64 x = E.cz(s, a[0], I.w), y = E.cz(s, a[1], I.w);
    double d, e; memcpy(&d, &x, 8); memcpy(&e, &y, 8); d = fn(d, e); memcpy(&x, &d, 8);
    E.setRes(s, I, VC(x));
}
static double dpow(double x, double y) { return std::pow(x, y); }
static double dfmin(double x, double y) { return std::fmin(x, y); }
static double dfmax(double x, double y) { return std::fmax(x, y); }
static double dlog(double x) { return std::log(x); }
static double dlog2(double x) { return std::log2(x); }
static double dlog10(double x) { return std::log10(x); }
static double dexp(double x) { return std::exp(x); }
static double dsqrt(double x) { return std::sqrt(x); }
static double dfloor(double x) { return std::floor(x); }
static double dceil(double x) { return std::ceil(x); }
static double dfabs(double x) { return std::fabs(x); }
static double dround(double x) { return std::round(x); }
static double drint(double x) { return std::rint(x); }
static double dtrunc(double x) { return std::trunc(x); }
BI(b_fmuladd) {
    double d[3];
    for (int i = 0; i < 3; ++i) { u64 x = E.cz(s, a[i], 64); memcpy(&d[i], &x, 8); }
    double r = d[0] * d[1] + d[2];
    u64 x; memcpy(&x, &r, 8);
    E.setRes(s, I, VC(x));
}

// ------------------------------------------------------------ exceptions
BI(b_cxa_alloc) {
    u64 n = A64(E, s, a, 0);
    Obj* o = s.mem.alloc(n + 16, OExc, 16, "exception", I.I);
    memset(o->d, 0, o->size);
    E.setRes(s, I, VC(o->base + 16));
}
BI(b_cxa_throw) {
    u64 p = A64(E, s, a, 0), t = A64(E, s, a, 1);
    E.store(s, VC(p - 16), VC(t), 64);
    E.throwExc(s, p);
}
BI(b_cxa_begin) {
    u64 p = A64(E, s, a, 0);
    s.thr[s.cur].caught.push_back(p);
    E.setRes(s, I, VC(p));
}
BI(b_cxa_end) {
    (void)a;
    auto& c = s.thr[s.cur].caught;
    if (!c.empty()) c.pop_back();
}
BI(b_cxa_rethrow) {
    (void)a;
    auto& c = s.thr[s.cur].caught;
    if (c.empty()) E.fail(s, "uncaught-exception", "rethrow without exception");
    E.throwExc(s, c.back());
}
BI(b_dyncast) {   // single inheritance, base at offset 0
    u64 p = A64(E, s, a, 0), dst = A64(E, s, a, 2);
    if (!p) { E.setRes(s, I, VC(0)); return; }
    u64 vt = E.cz(s, E.load(s, VC(p), 64), 64);
    u64 ti = E.cz(s, E.load(s, VC(vt - 8), 64), 64), off = E.cz(s, E.load(s, VC(vt - 16), 64), 64);
    E.setRes(s, I, VC(E.typeMatch(s, ti, dst) ? p + off : 0));
}
BI(b_typeid_for) { E.setRes(s, I, VC(E.typeId(A64(E, s, a, 0)))); }
BI(b_terminate) { (void)a; E.fail(s, "terminate", "std::terminate / abort called"); }
BI(b_assert_fail) { std::string m = E.cstr(s, A64(E, s, a, 0)); E.fail(s, "assert-fail", "assertion failed: " + m); }
BI(b_exit) { E.fail(s, "exit", "process exit called"); (void)a; }
static void throwStd(Exec& E, State& s, const char* ti) {
    // typeinfo of a libstdc++ exception class
    GlobalVariable* g = E.M->getNamedGlobal(ti);
    u64 t;
    if (g) t = E.gaddr[g];
    else {
        static std::map<std::string, u64> fake;
        auto it = fake.find(ti);
        if (it == fake.end()) it = fake.emplace(ti, 0x300000 + 64 * fake.size()).first;
        t = it->second;
        E.typeName[t] = ti;
    }
    Obj* o = s.mem.alloc(80, OExc, 16, "exception", nullptr);
    memset(o->d, 0, o->size);
    memcpy(o->d, &t, 8);
    E.throwExc(s, o->base + 16);
}
#define THROWER(fn, ti) BI(fn) { (void)a; (void)I; throwStd(E, s, ti); }
THROWER(t_oor, "_ZTISt12out_of_range")
THROWER(t_len, "_ZTISt12length_error")
THROWER(t_logic, "_ZTISt11logic_error")
THROWER(t_inv, "_ZTISt16invalid_argument")
THROWER(t_badalloc, "_ZTISt9bad_alloc")
THROWER(t_badfn, "_ZTISt17bad_function_call")
THROWER(t_sys, "_ZTISt12system_error")
THROWER(t_badcast, "_ZTISt8bad_cast")
THROWER(t_badarr, "_ZTISt20bad_array_new_length")

// ------------------------------------------------------------ guards, locks, threads
BI(b_guard_acquire) {
    u64 p = A64(E, s, a, 0);
    Val v = E.load(s, VC(p), 8);
    E.setRes(s, I, VC((v.c & 0xff) ? 0 : 1));
}
BI(b_guard_release) { E.store(s, VC(A64(E, s, a, 0)), VC(1), 8); }

// pthread_mutex_t: __lock (owner+1) at 0, __count at 4, __kind at 16
BI(b_mutex_lock) {
    u64 m = A64(E, s, a, 0);
    u32 own = (u32)E.load(s, VC(m), 32).c;
    u32 kind = (u32)E.load(s, VC(m + 16), 32).c & 3;
    if (!own) {
        E.store(s, VC(m), VC((u32)s.cur + 1), 32);
        E.store(s, VC(m + 4), VC(1), 32);
    } else if (own == (u32)s.cur + 1) {
        if (kind != 1) E.fail(s, "deadlock", "mutex locked twice by the same thread");
        u32 c = (u32)E.load(s, VC(m + 4), 32).c;
        E.store(s, VC(m + 4), VC(c + 1), 32);
    } else {
        s.thr[s.cur].stat = TMutex;
        s.thr[s.cur].waitOn = m;
        return;     // retried when woken
    }
    E.setRes(s, I, VC(0));
}
BI(b_mutex_trylock) {
    u64 m = A64(E, s, a, 0);
    u32 own = (u32)E.load(s, VC(m), 32).c;
    u32 kind = (u32)E.load(s, VC(m + 16), 32).c & 3;
    if (!own) {
        E.store(s, VC(m), VC((u32)s.cur + 1), 32);
        E.store(s, VC(m + 4), VC(1), 32);
        E.setRes(s, I, VC(0));
    } else if (own == (u32)s.cur + 1 && kind == 1) {
        u32 c = (u32)E.load(s, VC(m + 4), 32).c;
        E.store(s, VC(m + 4), VC(c + 1), 32);
        E.setRes(s, I, VC(0));
    } else E.setRes(s, I, VC(16));
}
static void wake(State& s, TStat st, u64 on) {
    for (auto& t : s.thr) if (t.stat == st && t.waitOn == on) t.stat = TRun;
}
static void doUnlock(Exec& E, State& s, u64 m) {
    u32 own = (u32)E.load(s, VC(m), 32).c;
    if (own != (u32)s.cur + 1) E.fail(s, "bad-unlock", own ? "mutex unlocked by a thread that does not own it" : "unlock of a mutex that is not locked");
    u32 c = (u32)E.load(s, VC(m + 4), 32).c;
    E.store(s, VC(m + 4), VC(c - 1), 32);
    if (c == 1) {
        E.store(s, VC(m), VC(0), 32);
        wake(s, TMutex, m);
    }
}
BI(b_mutex_unlock) { doUnlock(E, s, A64(E, s, a, 0)); E.setRes(s, I, VC(0)); }
BI(b_mutex_init) {
    u64 m = A64(E, s, a, 0);
    for (int i = 0; i < 40; i += 8) E.store(s, VC(m + i), VC(0), 64);
    E.setRes(s, I, VC(0));
}
// std::condition_variable::wait(unique_lock&)   / pthread_cond_wait(c, m)
static void clockTo(Exec& E, State& s, u64 ts) {   // the wait expired: it is later than its deadline now
    auto* g = E.M->getNamedGlobal("jrt_clock_ns");
    if (!g || !ts) return;
    Val sec = E.load(s, VC(ts), 64), ns = E.load(s, VC(ts + 8), 64);
    auto gi = E.gaddr.find(g); if (gi == E.gaddr.end()) return; Val a = VC(gi->second);
    if (sec.e || ns.e || a.e) return;
    u64 t = sec.c * 1000000000ull + ns.c + 1;
    Val now = E.load(s, VC(a.c), 64);
    if (!now.e && (int64_t)now.c < (int64_t)t) E.store(s, VC(a.c), VC(t), 64);
}
static void condWait(Exec& E, State& s, DInst& I, u64 cv, u64 m, bool timed, u64 ts = 0) {
    Thread& t = s.thr[s.cur];
    if (t.waitMutex == m && t.waitOn == cv && t.stat == TRun) {
        // woken: take the mutex again
        u32 own = (u32)E.load(s, VC(m), 32).c;
        if (own) { t.stat = TMutex; u64 w = t.waitOn; (void)w;
            // stay in the re-acquire phase
            t.waitOn = m; t.waitMutex = m | 1; return; }
        E.store(s, VC(m), VC((u32)s.cur + 1), 32);
        E.store(s, VC(m + 4), VC(1), 32);
        t.waitMutex = 0; t.waitOn = 0;
        bool to = t.timedOut; t.timedOut = false; t.canTimeout = false; if (to) clockTo(E, s, ts);
        E.setRes(s, I, VC(to ? 110 : 0));
        return;
    }
    if (t.waitMutex == (m | 1)) {
        u32 own = (u32)E.load(s, VC(m), 32).c;
        if (own) { t.stat = TMutex; t.waitOn = m; return; }
        E.store(s, VC(m), VC((u32)s.cur + 1), 32);
        E.store(s, VC(m + 4), VC(1), 32);
        t.waitMutex = 0; t.waitOn = 0;
        bool to = t.timedOut; t.timedOut = false; t.canTimeout = false; if (to) clockTo(E, s, ts);
        E.setRes(s, I, VC(to ? 110 : 0));
        return;
    }
    doUnlock(E, s, m);
    t.stat = TCond; t.waitOn = cv; t.waitMutex = m; t.canTimeout = timed; t.timedOut = false;
}
BI(b_cv_wait) { u64 cv = A64(E, s, a, 0), ul = A64(E, s, a, 1); u64 m = E.load(s, VC(ul), 64).c; condWait(E, s, I, cv, m, false); }
BI(b_cond_wait) { condWait(E, s, I, A64(E, s, a, 0), A64(E, s, a, 1), false); }
BI(b_cond_timedwait) { condWait(E, s, I, A64(E, s, a, 0), A64(E, s, a, 1), true, A64(E, s, a, 2)); }
BI(b_cond_clockwait) { condWait(E, s, I, A64(E, s, a, 0), A64(E, s, a, 1), true, A64(E, s, a, 3)); }
BI(b_cond_signal) {
    u64 cv = A64(E, s, a, 0);
    for (auto& t : s.thr) if (t.stat == TCond && t.waitOn == cv) { t.stat = TRun; break; }
    E.setRes(s, I, VC(0));
}
BI(b_cond_bcast) { wake(s, TCond, A64(E, s, a, 0)); E.setRes(s, I, VC(0)); }

// threads
static int spawn(Exec& E, State& s, DFunc* f, u64 arg, DInst&) {
    s.thr.emplace_back();
    int id = (int)s.thr.size() - 1;
    int cur = s.cur;
    s.cur = id;
    std::vector<Val> args{VC(arg)};
    E.call(s, f, args, {1}, nullptr);
    s.cur = cur;
    return id;
}
BI(b_thread_create) { // int sym_thread_create(void(*fn)(void*), void* arg)
    u64 fn = A64(E, s, a, 0), arg = A64(E, s, a, 1);
    auto it = E.faddr.find(fn);
    if (it == E.faddr.end() || it->second->isDeclaration()) E.incomplete(s, "thread entry");
    E.setRes(s, I, VC((u32)spawn(E, s, E.getFunc(it->second), arg, I)));
}
BI(b_thread_join) {
    u64 id = A32(E, s, a, 0);
    if (id >= s.thr.size()) E.fail(s, "bad-join", "join of an unknown thread");
    if (s.thr[id].stat != TDone) { s.thr[s.cur].stat = TJoin; s.thr[s.cur].waitOn = id; return; }
}
BI(b_preempt) { s.preemptBudget = (int)A32(E, s, a, 0); s.preempts = 0; }
BI(b_spurious) { s.spurious = (int)A32(E, s, a, 0); }
BI(b_timeouts) { s.timeouts = A32(E, s, a, 0) != 0; }
BI(b_share) { u64 p = A64(E, s, a, 0), n = A64(E, s, a, 1); if (n) s.shared.push_back({p, p + n}); else s.shared.clear(); }
BI(b_share_heap) { s.shareHeap = A32(E, s, a, 0) != 0; }
BI(b_ret4) { (void)a; E.setRes(s, I, VC(4)); }
BI(b_thread_self) { (void)a; E.setRes(s, I, VC((u64)s.cur + 1)); }
// std::thread::_M_start_thread(unique_ptr<_State>, void(*)())
BI(b_std_thread_start) {
    u64 self = A64(E, s, a, 0), up = A64(E, s, a, 1);
    u64 st = E.load(s, VC(up), 64).c;
    E.store(s, VC(up), VC(0), 64);
    llvm::Function* mf = E.M->getFunction("jrt_std_main");
    if (!mf) E.incomplete(s, "std::thread entry");
    int id = spawn(E, s, E.getFunc(mf), st, I);
    E.store(s, VC(self), VC((u64)id + 1), 64);
}
BI(b_std_thread_join) {
    u64 self = A64(E, s, a, 0);
    u64 id = E.load(s, VC(self), 64).c;
    if (!id || id - 1 >= s.thr.size()) E.fail(s, "bad-join", "join of a thread that is not joinable");
    if (s.thr[id - 1].stat != TDone) { s.thr[s.cur].stat = TJoin; s.thr[s.cur].waitOn = id - 1; return; }
    E.store(s, VC(self), VC(0), 64);
}
BI(b_std_thread_detach) { E.store(s, VC(A64(E, s, a, 0)), VC(0), 64); }
BI(b_yield) {
    (void)a;
    E.setRes(s, I, VC(0));
    // a voluntary yield hands over to another runnable thread (free choice)
    if (s.thr.size() < 2) return;
    for (size_t k = 1; k < s.thr.size(); ++k) {
        size_t i = (s.cur + k) % s.thr.size();
        if (s.thr[i].stat != TRun || s.thr[i].st.empty()) continue;
        if (I.e0) E.jump(s, I.e0); else E.fr(s).ip++;
        s.thr[s.cur].schedDone = false;
        s.cur = (int)i;
        return;
    }
}

void registerBuiltins(Exec& E) {
    auto& b = E.builtins;
    b["jsym.nop"] = b_nop;
    b["sym_bytes"] = b_sym_bytes; b["sym_range"] = b_sym_range; b["sym_u64"] = b_sym_u64;
    b["sym_choose"] = b_sym_choose; b["sym_assume_"] = b_sym_assume; b["sym_assert_"] = b_sym_assert;
    b["sym_cover"] = b_sym_cover; b["sym_observe"] = b_sym_observe; b["sym_concretize"] = b_sym_concretize;
    b["sym_arg"] = b_sym_arg; b["sym_tier"] = b_sym_tier; b["sym_is_replay"] = b_sym_is_replay;
    b["sym_live_heap"] = b_sym_live_heap; b["sym_end"] = b_sym_end; b["sym_reject"] = b_sym_reject; b["sym_is_symbolic"] = b_sym_issym;
    b["sym_fail"] = b_sym_fail; b["sym_ite"] = b_sym_ite; b["sym_print"] = b_sym_print;
    b["sym_readable"] = b_sym_readable;
    b["sym_spurious"] = b_spurious; b["sym_timeouts"] = b_timeouts;
    b["sym_thread_create"] = b_thread_create; b["sym_thread_join"] = b_thread_join;
    b["sym_preempt_budget"] = b_preempt; b["sym_share"] = b_share; b["sym_share_heap"] = b_share_heap; b["sym_yield"] = b_yield;

    for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "__memcpy_chk", "__memmove_chk"}) b[n] = b_memcpy;
    b["mempcpy"] = b_mempcpy;
    for (auto n : {"memset", "llvm.memset", "llvm.memset.inline", "__memset_chk"}) b[n] = b_memset;
    b["memcmp"] = b_memcmp; b["bcmp"] = b_memcmp; b["memchr"] = b_memchr;
    b["strlen"] = b_strlen; b["strnlen"] = b_strnlen; b["strcmp"] = b_strcmp; b["strncmp"] = b_strncmp;
    b["strcpy"] = b_strcpy; b["strncpy"] = b_strncpy; b["strcat"] = b_strcat; b["strchr"] = b_strchr;
    b["strrchr"] = b_strrchr; b["strstr"] = b_strstr;
    b["malloc"] = b_malloc; b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["free"] = b_free;
    b["posix_memalign"] = b_posix_memalign; b["aligned_alloc"] = b_aligned_alloc; b["memalign"] = b_aligned_alloc;
    b["_Znwm"] = b_new; b["_Znam"] = b_newarr; b["_ZnwmRKSt9nothrow_t"] = b_new; b["_ZnamRKSt9nothrow_t"] = b_newarr;
    b["_ZnwmSt11align_val_t"] = b_newal;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) b[n] = b_delete;
    for (auto n : {"_ZdaPv", "_ZdaPvm"}) b[n] = b_deletearr;
    b["atoi"] = b_atoi; b["atol"] = b_atol; b["atoll"] = b_atol;
    b["strtol"] = strtox<true>; b["strtoll"] = strtox<true>; b["strtoul"] = strtox<false>; b["strtoull"] = strtox<false>;
    b["__isoc23_strtol"] = strtox<true>; b["__isoc23_strtoll"] = strtox<true>; b["__isoc23_strtoul"] = strtox<false>; b["__isoc23_strtoull"] = strtox<false>;
    b["isdigit"] = ctype1<isdigit>; b["isalpha"] = ctype1<isalpha>; b["isspace"] = ctype1<isspace>;
    b["isprint"] = ctype1<isprint>; b["tolower"] = ctype1<tolower>; b["toupper"] = ctype1<toupper>; b["isxdigit"] = ctype1<isxdigit>;
    b["snprintf"] = b_snprintf; b["sprintf"] = b_sprintf; b["vsnprintf"] = b_vsnprintf;
    for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "vfprintf", "vprintf", "perror", "fwrite", "putc"}) b[n] = b_nop;
    b["llvm.va_start"] = b_va_start; b["llvm.va_end"] = b_nop; b["llvm.va_copy"] = b_va_copy;
    b["llvm.bswap"] = b_bswap; b["llvm.ctpop"] = b_ctpop; b["llvm.ctlz"] = b_ctlz; b["llvm.cttz"] = b_cttz;
    b["llvm.umax"] = minmax<0>; b["llvm.umin"] = minmax<1>; b["llvm.smax"] = minmax<2>; b["llvm.smin"] = minmax<3>;
    b["llvm.abs"] = b_abs;
    b["llvm.uadd.with.overflow"] = ovf<0>; b["llvm.usub.with.overflow"] = ovf<1>; b["llvm.umul.with.overflow"] = ovf<2>;
    b["llvm.sadd.with.overflow"] = ovf<3>; b["llvm.ssub.with.overflow"] = ovf<4>; b["llvm.smul.with.overflow"] = ovf<5>;
    b["llvm.usub.sat"] = b_usubsat; b["llvm.uadd.sat"] = b_uaddsat;
    b["llvm.fshl"] = fsh<true>; b["llvm.fshr"] = fsh<false>;
    b["llvm.expect"] = b_id0; b["llvm.is.constant"] = b_ret0; b["llvm.objectsize"] = b_objectsize;
    b["llvm.stacksave"] = b_ret0; b["llvm.stackrestore"] = b_nop; b["llvm.trap"] = b_trap; b["llvm.ubsantrap"] = b_trap; b["llvm.debugtrap"] = b_trap;
    b["llvm.threadlocal.address"] = b_tls; b["llvm.eh.typeid.for"] = b_typeid_for; b["__dynamic_cast"] = b_dyncast;
    b["llvm.invariant.start"] = b_ret0; b["llvm.launder.invariant.group"] = b_id0; b["llvm.strip.invariant.group"] = b_id0;
    b["llvm.ptrmask"] = b_nop;
    b["llvm.fabs"] = math1<dfabs>; b["llvm.floor"] = math1<dfloor>; b["llvm.ceil"] = math1<dceil>; b["llvm.sqrt"] = math1<dsqrt>;
    b["llvm.log"] = math1<dlog>; b["llvm.log2"] = math1<dlog2>; b["llvm.log10"] = math1<dlog10>; b["llvm.exp"] = math1<dexp>; b["llvm.round"] = math1<dround>; b["llvm.rint"] = math1<drint>; b["llvm.trunc"] = math1<dtrunc>;
    b["llvm.pow"] = math2<dpow>; b["llvm.minnum"] = math2<dfmin>; b["llvm.maxnum"] = math2<dfmax>; b["llvm.fmuladd"] = b_fmuladd; b["llvm.fma"] = b_fmuladd;
    b["log"] = math1<dlog>; b["log2"] = math1<dlog2>; b["log10"] = math1<dlog10>; b["exp"] = math1<dexp>; b["sqrt"] = math1<dsqrt>; b["floor"] = math1<dfloor>; b["ceil"] = math1<dceil>; b["round"] = math1<dround>; b["fabs"] = math1<dfabs>; b["pow"] = math2<dpow>; b["rint"] = math1<drint>; b["trunc"] = math1<dtrunc>;

    b["__cxa_allocate_exception"] = b_cxa_alloc; b["__cxa_free_exception"] = b_nop; b["__cxa_throw"] = b_cxa_throw;
    b["__cxa_begin_catch"] = b_cxa_begin; b["__cxa_end_catch"] = b_cxa_end; b["__cxa_rethrow"] = b_cxa_rethrow;
    b["__cxa_get_exception_ptr"] = b_id0; b["_ZSt18uncaught_exceptionv"] = b_ret0; b["_ZSt19uncaught_exceptionsv"] = b_ret0;
    b["__cxa_atexit"] = b_ret0; b["atexit"] = b_ret0; b["__cxa_thread_atexit"] = b_ret0;
    b["__clang_call_terminate"] = b_terminate; b["_ZSt9terminatev"] = b_terminate; b["abort"] = b_terminate; b["__cxa_pure_virtual"] = b_terminate;
    b["__cxa_call_unexpected"] = b_terminate; b["__assert_fail"] = b_assert_fail; b["exit"] = b_exit; b["_exit"] = b_exit; b["__stack_chk_fail"] = b_trap;
    b["_ZSt20__throw_out_of_rangePKc"] = t_oor; b["_ZSt24__throw_out_of_range_fmtPKcz"] = t_oor; b["_ZSt20__throw_length_errorPKc"] = t_len;
    b["_ZSt19__throw_logic_errorPKc"] = t_logic; b["_ZSt24__throw_invalid_argumentPKc"] = t_inv; b["_ZSt17__throw_bad_allocv"] = t_badalloc;
    b["_ZSt25__throw_bad_function_callv"] = t_badfn; b["_ZSt20__throw_system_errori"] = t_sys; b["_ZSt16__throw_bad_castv"] = t_badcast;
    b["_ZSt28__throw_bad_array_new_lengthv"] = t_badarr;
    b["__cxa_guard_acquire"] = b_guard_acquire; b["__cxa_guard_release"] = b_guard_release; b["__cxa_guard_abort"] = b_nop;
    b["pthread_mutex_lock"] = b_mutex_lock; b["pthread_mutex_unlock"] = b_mutex_unlock; b["pthread_mutex_trylock"] = b_mutex_trylock;
    b["pthread_mutex_init"] = b_mutex_init; b["pthread_mutex_destroy"] = b_ret0;
    b["pthread_cond_init"] = b_ret0; b["pthread_cond_destroy"] = b_ret0;
    b["pthread_spin_init"] = b_mutex_init;
    b["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = b_cv_wait;
    b["pthread_cond_wait"] = b_cond_wait; b["pthread_cond_timedwait"] = b_cond_timedwait; b["pthread_cond_clockwait"] = b_cond_clockwait;
    b["_ZNSt18condition_variable10notify_oneEv"] = b_cond_signal; b["_ZNSt18condition_variable10notify_allEv"] = b_cond_bcast;
    b["pthread_cond_signal"] = b_cond_signal; b["pthread_cond_broadcast"] = b_cond_bcast;
    b["_ZNSt18condition_variableC1Ev"] = b_nop; b["_ZNSt18condition_variableD1Ev"] = b_nop; b["_ZNSt18condition_variableC2Ev"] = b_nop; b["_ZNSt18condition_variableD2Ev"] = b_nop;
    b["pthread_self"] = b_thread_self; b["pthread_setname_np"] = b_ret0; b["pthread_getname_np"] = b_ret0;
    b["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = b_std_thread_start;
    b["_ZNSt6thread4joinEv"] = b_std_thread_join; b["_ZNSt6thread6detachEv"] = b_std_thread_detach;
    b["_ZNSt6thread6_StateD2Ev"] = b_nop; b["_ZNSt6thread6_StateD1Ev"] = b_nop;
    b["_ZNSt6thread20hardware_concurrencyEv"] = b_ret4; b["sched_yield"] = b_yield;
    b["usleep"] = b_yield; b["nanosleep"] = b_yield; b["sleep"] = b_yield;
    b["getpid"] = b_ret1; b["gettid"] = b_ret1;
    b["_ZNSt8ios_base4InitC1Ev"] = b_nop; b["_ZNSt8ios_base4InitD1Ev"] = b_nop;
}
