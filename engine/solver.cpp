#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>

SolverStats gSS;

static void errh(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "jsym: z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

Solver::Solver(unsigned t) : timeoutMs(t) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    fast = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, fast);
    Z3_symbol lg = Z3_mk_string_symbol(ctx, "QF_BV");
    slow = Z3_mk_solver_for_logic(ctx, lg);
    Z3_solver_inc_ref(ctx, slow);
    auto setT = [&](Z3_solver s, unsigned ms) {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    };
    absS = Z3_mk_solver_for_logic(ctx, lg);
    Z3_solver_inc_ref(ctx, absS);
    setT(absS, std::min(1000u, timeoutMs));
    setT(fast, std::min(1500u, timeoutMs));
    setT(slow, timeoutMs);
}

Z3_ast Solver::sym(u32 id) {
    auto it = syms.find(id);
    if (it != syms.end()) return it->second;
    Z3_sort s = symWidth(id) == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, symWidth(id));
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, id), s);
    Z3_inc_ref(ctx, a);
    syms[id] = a;
    return a;
}

// bit-vector view of e
Z3_ast Solver::trBV(Expr* e) {
    Z3_ast x = tr(e);
    if (e->w != 1) return x;
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, x, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
}

Z3_ast Solver::tr(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r = nullptr;
    switch (e->k) {
    case EConst:
        if (e->w == 1) r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w));
        else {
            Z3_ast hi = Z3_mk_unsigned_int64(ctx, e->hi, Z3_mk_bv_sort(ctx, e->w - 64));
            Z3_ast lo = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, 64));
            r = Z3_mk_concat(ctx, hi, lo);
        }
        break;
    case ESym: r = sym(e->val); break;
    case EIte: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case EConcat: { Z3_ast x = trBV(e->a); Z3_ast y = trBV(e->b); r = Z3_mk_concat(ctx, x, y); break; }
    case EExtract: {
        Z3_ast x = trBV(e->a);
        x = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, x);
        if (e->w == 1) r = Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
        else r = x;
        break;
    }
    case EZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, trBV(e->a)); break;
    case ESExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, trBV(e->a)); break;
    case EEq: { Z3_ast x = tr(e->a), y = tr(e->b); r = Z3_mk_eq(ctx, x, y); break; }
    case EUlt: { Z3_ast x = trBV(e->a), y = trBV(e->b); r = Z3_mk_bvult(ctx, x, y); break; }
    case ESlt: { Z3_ast x = trBV(e->a), y = trBV(e->b); r = Z3_mk_bvslt(ctx, x, y); break; }
    default: {
        Z3_ast x = tr(e->a), y = tr(e->b);
        if (e->w == 1) {
            Z3_ast args[2] = {x, y};
            switch (e->k) {
            case EAnd: r = Z3_mk_and(ctx, 2, args); break;
            case EOr: r = Z3_mk_or(ctx, 2, args); break;
            case EXor:
                if (isC(e->a)) r = Z3_mk_not(ctx, y);
                else r = Z3_mk_xor(ctx, x, y);
                break;
            default: fprintf(stderr, "jsym: bad w1 op %d\n", e->k); abort();
            }
            break;
        }
        switch (e->k) {
        case EAdd: r = Z3_mk_bvadd(ctx, x, y); break;
        case EMul: r = Z3_mk_bvmul(ctx, x, y); break;
        case EUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
        case ESDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case EURem: r = Z3_mk_bvurem(ctx, x, y); break;
        case ESRem: r = Z3_mk_bvsrem(ctx, x, y); break;
        case EAnd: r = Z3_mk_bvand(ctx, x, y); break;
        case EOr: r = Z3_mk_bvor(ctx, x, y); break;
        case EXor: r = Z3_mk_bvxor(ctx, x, y); break;
        case EShl: r = Z3_mk_bvshl(ctx, x, y); break;
        case ELShr: r = Z3_mk_bvlshr(ctx, x, y); break;
        case EAShr: r = Z3_mk_bvashr(ctx, x, y); break;
        default: fprintf(stderr, "jsym: bad op %d\n", e->k); abort();
        }
    }
    }
    Z3_inc_ref(ctx, r);
    e->z = r;
    return r;
}

static bool intersects(const SymSet* a, const std::vector<u8>& mark) {
    for (u32 x : a->v) if (mark[x]) return true;
    return false;
}

// A satisfying assignment found by evaluating the constraints on assignments
// derived from the current path's model; any answer is a checked witness.
SatRes Solver::probe(const std::vector<Expr*>& sl, const std::vector<u32>& ids, Model* base,
                     std::vector<std::pair<u32, u64>>& model) {
    auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; };
    auto t0 = std::chrono::steady_clock::now();
    Model m;
    m.v.assign(numSyms(), 0);
    const SymSet* qs = sl.back()->syms;
    for (int t = 0; t < 400; ++t) {
        if (base) for (u32 id : ids) m.v[id] = id < base->v.size() ? base->v[id] : 0;
        const std::vector<u32>& pick = (t & 1) && qs ? qs->v : ids;
        unsigned dens = t % 4 == 0 ? 0 : t % 4;
        for (u32 id : pick) {
            if (dens && rnd() % (1u << dens)) continue;
            u64 r = rnd();
            switch (r % 4) {
            case 0: r = rnd() % 8; break;
            case 1: r = rnd() % 256; break;
            default: r = rnd();
            }
            m.v[id] = r & maskw(symWidth(id));
        }
        m.epoch = freshEpoch();
        bool ok = true;
        for (size_t i = sl.size(); i-- > 0 && ok;) ok = evalExpr(sl[i], m) & 1;
        if (ok) {
            for (u32 id : ids) model.push_back({id, m.v[id]});
            return SAT;
        }
        if ((t & 15) == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0.25) break;
    }
    return UNKNOWN;
}

// Division, remainder and wide products replaced by unconstrained values of
// their range: unsatisfiable then means unsatisfiable.
Z3_ast Solver::trAbs(Expr* e, std::vector<Expr*>& opaque) {
    if (!e->hard) return tr(e);
    auto it = absMemo.find(e->id);
    if (it != absMemo.end()) return it->second;
    Z3_ast r = nullptr;
    if (opaqueKind(e)) {
        std::string n = "abs" + std::to_string(e->id);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w));
    } else {
        auto bv = [&](Expr* x) {
            Z3_ast a = trAbs(x, opaque);
            if (x->w != 1) return a;
            Z3_sort s = Z3_mk_bv_sort(ctx, 1);
            return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
        };
        switch (e->k) {
        case EIte: r = Z3_mk_ite(ctx, trAbs(e->a, opaque), trAbs(e->b, opaque), trAbs(e->c, opaque)); break;
        case EConcat: { Z3_ast x = bv(e->a), y = bv(e->b); r = Z3_mk_concat(ctx, x, y); break; }
        case EExtract: {
            Z3_ast x = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, bv(e->a));
            r = e->w == 1 ? Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))) : x;
            break;
        }
        case EZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
        case ESExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
        case EEq: { Z3_ast x = trAbs(e->a, opaque), y = trAbs(e->b, opaque); r = Z3_mk_eq(ctx, x, y); break; }
        case EUlt: { Z3_ast x = bv(e->a), y = bv(e->b); r = Z3_mk_bvult(ctx, x, y); break; }
        case ESlt: { Z3_ast x = bv(e->a), y = bv(e->b); r = Z3_mk_bvslt(ctx, x, y); break; }
        default: {
            Z3_ast x = trAbs(e->a, opaque), y = trAbs(e->b, opaque), args[2] = {x, y};
            bool one = e->w == 1;
            switch (e->k) {
            case EAnd: r = one ? Z3_mk_and(ctx, 2, args) : Z3_mk_bvand(ctx, x, y); break;
            case EOr: r = one ? Z3_mk_or(ctx, 2, args) : Z3_mk_bvor(ctx, x, y); break;
            case EXor: r = one ? Z3_mk_xor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y); break;
            case EAdd: r = Z3_mk_bvadd(ctx, x, y); break;
            case EMul: r = Z3_mk_bvmul(ctx, x, y); break;
            case EUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
            case ESDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
            case EURem: r = Z3_mk_bvurem(ctx, x, y); break;
            case ESRem: r = Z3_mk_bvsrem(ctx, x, y); break;
            case EShl: r = Z3_mk_bvshl(ctx, x, y); break;
            case ELShr: r = Z3_mk_bvlshr(ctx, x, y); break;
            case EAShr: r = Z3_mk_bvashr(ctx, x, y); break;
            default: fprintf(stderr, "jsym: bad op %d\n", e->k); abort();
            }
        }
        }
    }
    Z3_inc_ref(ctx, r);
    absMemo[e->id] = r;
    return r;
}
static void collectOpaque(Expr* e, std::unordered_map<u32, bool>& seen, std::vector<Expr*>& out) {
    if (!e || !e->hard || seen[e->id]) return;
    seen[e->id] = true;
    if (opaqueKind(e)) { out.push_back(e); return; }
    collectOpaque(e->a, seen, out); collectOpaque(e->b, seen, out); collectOpaque(e->c, seen, out);
}
bool Solver::abstractUnsat(const std::vector<Expr*>& sl) {
    std::vector<Expr*> op, dummy;
    std::unordered_map<u32, bool> seen;
    for (Expr* e : sl) collectOpaque(e, seen, op);
    Z3_solver_reset(ctx, absS);
    for (Expr* e : sl) Z3_solver_assert(ctx, absS, trAbs(e, dummy));
    for (Expr* o : op) if (o->w <= 64) {
        u64 m = umaxExpr(o);
        if (m < maskw(o->w))
            Z3_solver_assert(ctx, absS, Z3_mk_bvule(ctx, trAbs(o, dummy), Z3_mk_unsigned_int64(ctx, m, Z3_mk_bv_sort(ctx, o->w))));
    }
    return Z3_solver_check(ctx, absS) == Z3_L_FALSE;
}

// Slices over a few small variables: the assignments are exhausted directly,
// after reducing every variable to the values its own constraints allow.
SatRes Solver::domainCheck(const std::vector<Expr*>& sl, const std::vector<u32>& ids, std::vector<std::pair<u32, u64>>& model) {
    if (ids.empty() || ids.size() > 8) return UNKNOWN;
    for (u32 id : ids) if (symWidth(id) > 12) return UNKNOWN;
    static Model m;
    if (m.v.size() < numSyms()) m.v.resize(numSyms() + 64, 0);
    std::vector<std::vector<u64>> dom(ids.size());
    std::vector<Expr*> multi;
    for (size_t i = 0; i < ids.size(); ++i) {
        u64 n = 1ULL << symWidth(ids[i]), words = (n + 63) / 64;
        std::vector<u64> bm(words, n >= 64 ? ~0ULL : (1ULL << n) - 1);
        for (Expr* e : sl) {
            if (!e->syms || e->syms->v.size() != 1 || e->syms->v[0] != ids[i]) continue;
            auto& c = domMemo[e->id];
            if (c.empty()) {
                c.assign(words, 0);
                for (u64 v = 0; v < n; ++v) {
                    m.v[ids[i]] = v; m.epoch = freshEpoch();
                    if (evalExpr(e, m) & 1) c[v / 64] |= 1ULL << (v % 64);
                }
            }
            for (u64 k = 0; k < words; ++k) bm[k] &= c[k];
        }
        for (u64 k = 0; k < words; ++k) for (u64 b = bm[k]; b; b &= b - 1) dom[i].push_back(k * 64 + __builtin_ctzll(b));
        if (dom[i].empty()) return UNSAT;
    }
    for (Expr* e : sl) if (e->syms && e->syms->v.size() > 1) multi.push_back(e);
    // order the variables by domain size, check each constraint once its last variable is set
    std::vector<size_t> ord(ids.size());
    for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return dom[a].size() < dom[b].size(); });
    double prod = 1;
    for (auto& d : dom) prod *= d.size();
    if (!multi.empty() && prod > 50000) return UNKNOWN;
    std::vector<std::vector<Expr*>> at(ids.size());
    for (Expr* e : multi) {
        size_t last = 0;
        for (size_t l = 0; l < ord.size(); ++l)
            if (std::find(e->syms->v.begin(), e->syms->v.end(), ids[ord[l]]) != e->syms->v.end()) last = l;
        at[last].push_back(e);
    }
    u64 evals = 0;
    bool give = false;
    std::vector<size_t> pos(ids.size(), 0);
    size_t l = 0;
    while (true) {
        if (pos[l] >= dom[ord[l]].size()) {
            pos[l] = 0;
            if (l == 0) return UNSAT;
            pos[--l]++;
            continue;
        }
        m.v[ids[ord[l]]] = dom[ord[l]][pos[l]];
        bool ok = true;
        if (!at[l].empty()) {
            m.epoch = freshEpoch();
            for (Expr* e : at[l]) { if (++evals > 100000) { give = true; break; } if (!(evalExpr(e, m) & 1)) { ok = false; break; } }
            if (give) return UNKNOWN;
        }
        if (!ok) { pos[l]++; continue; }
        if (l + 1 == ids.size()) {
            for (u32 id : ids) model.push_back({id, m.v[id]});
            return SAT;
        }
        ++l;
    }
}

SatRes Solver::check(const std::vector<Expr*>& cons, Expr* q, Model* out) {
    if (isC(q)) {
        if (!q->val) return UNSAT;
        return SAT;
    }
    // slice
    static std::vector<u8> mark;
    mark.assign(numSyms(), 0);
    std::vector<u8> used(cons.size(), 0);
    std::vector<Expr*> sl;
    for (u32 x : q->syms->v) mark[x] = 1;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); ++i) {
            if (used[i] || !cons[i]->syms) continue;
            if (!intersects(cons[i]->syms, mark)) continue;
            used[i] = 1; ch = true;
            sl.push_back(cons[i]);
            for (u32 x : cons[i]->syms->v) mark[x] = 1;
        }
    }
    sl.push_back(q);
    std::vector<u32> key;
    for (Expr* e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        gSS.cacheHits++;
        if (it->second.r == SAT && out)
            for (auto& p : it->second.model) {
                if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0);
                out->v[p.first] = p.second;
            }
        if (it->second.r != UNKNOWN) return it->second.r;
    }
    gSS.queries++;
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool res = Z3_L_UNDEF;
    Z3_solver s = fast;
    CacheEnt ce;
    bool lin = false;
    {
        std::vector<u32> ids;
        for (u32 id = 0; id < mark.size(); ++id) if (mark[id]) ids.push_back(id);
        SatRes d = domainCheck(sl, ids, ce.model);
        SatRes g = UNKNOWN;
        if (d == SAT) { lin = true; ce.r = SAT; gSS.sat++; gSS.domain++; }
        else if (d == UNSAT) { lin = true; ce.r = UNSAT; gSS.unsat++; gSS.domain++; }
        else g = gf2Check(sl, ids, ce.model);
        if (lin) ;
        else if (g == SAT) { lin = true; ce.r = SAT; gSS.sat++; gSS.linear++; }
        else if (g == UNSAT) { lin = true; ce.r = UNSAT; gSS.unsat++; gSS.linear++; }
        else ce.model.clear();
    }
    bool hard = false;
    for (Expr* e : sl) if (e->hard) hard = true;
    if (!lin && hard) {
        std::vector<u32> ids;
        for (u32 id = 0; id < mark.size(); ++id) if (mark[id]) ids.push_back(id);
        if (probe(sl, ids, out, ce.model) == SAT) { lin = true; ce.r = SAT; gSS.sat++; gSS.probed++; }
        else if (abstractUnsat(sl)) { lin = true; ce.r = UNSAT; gSS.unsat++; gSS.abstracted++; }
    }
    if (!lin) {
    for (int round = 0; round < 2 && res == Z3_L_UNDEF; ++round) {
        s = round == 0 ? fast : slow;
        Z3_solver_reset(ctx, s);
        for (Expr* e : sl) Z3_solver_assert(ctx, s, tr(e));
        res = Z3_solver_check(ctx, s);
    }
    if (res == Z3_L_TRUE) {
        ce.r = SAT; gSS.sat++;
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (u32 id = 0; id < mark.size(); ++id) if (mark[id]) {
            Z3_ast v = nullptr;
            u64 val = 0;
            if (!Z3_model_eval(ctx, m, sym(id), true, &v)) { fprintf(stderr, "jsym: model eval\n"); abort(); }
            Z3_inc_ref(ctx, v);
            if (symWidth(id) == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
            else {
                uint64_t vv = 0;
                if (!Z3_get_numeral_uint64(ctx, v, &vv)) { fprintf(stderr, "jsym: numeral\n"); abort(); }
                val = vv;
            }
            Z3_dec_ref(ctx, v);
            ce.model.push_back({id, val});
        }
        Z3_model_dec_ref(ctx, m);
    } else if (res == Z3_L_FALSE) { ce.r = UNSAT; gSS.unsat++; }
    else { ce.r = UNKNOWN; gSS.unknown++; }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSS.secs += dt;
    if (dt > gSS.maxSecs) gSS.maxSecs = dt;
    if (dumpLeft && !dumpDir.empty() && ce.r != UNKNOWN) {
        dumpLeft--;
        std::ofstream f(dumpDir + "/q" + std::to_string(gSS.queries) + (ce.r == SAT ? ".sat" : ".unsat") + ".smt2");
        Z3_solver_reset(ctx, slow);
        for (Expr* e : sl) Z3_solver_assert(ctx, slow, tr(e));
        f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, slow) << "(check-sat)\n";
    }
    if (ce.r == SAT && out)
        for (auto& p : ce.model) {
            if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0);
            out->v[p.first] = p.second;
        }
    SatRes rr = ce.r;
    cache[key] = std::move(ce);
    return rr;
}
