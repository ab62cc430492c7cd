// Decision procedure for the GF(2)-affine fragment (xor, constant masks and
// shifts, extraction, concatenation): CRCs live there and bit-blasting them is
// hopeless for a SAT solver, while Gaussian elimination settles them at once.
#include "solver.h"
#include <algorithm>
#include <unordered_map>
#include <functional>

namespace {
struct Row {                 // affine form over the symbol bits
    std::vector<u64> m;      // trailing zero words are trimmed
    bool c = false;
    void norm() { while (!m.empty() && !m.back()) m.pop_back(); }
    bool isConst() const { return m.empty(); }
    void add(const Row& o) {
        if (m.size() < o.m.size()) m.resize(o.m.size(), 0);
        for (size_t i = 0; i < o.m.size(); ++i) m[i] ^= o.m[i];
        c ^= o.c;
        norm();
    }
    int lead() const { return m.empty() ? -1 : (int)(m.size() - 1) * 64 + 63 - __builtin_clzll(m.back()); }
};
typedef std::vector<Row> Bits;

struct Lin {
    const std::unordered_map<u32, u32>& col;
    std::unordered_map<Expr*, Bits*> memo;
    u64 work = 0;
    explicit Lin(const std::unordered_map<u32, u32>& c) : col(c) {}
    ~Lin() { for (auto& p : memo) delete p.second; }
    const Bits* get(Expr* e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Bits* b = comp(e);
        memo[e] = b;
        return b;
    }
    static bool cbit(Expr* e, unsigned i) { return i < 64 ? (e->val >> i) & 1 : (e->hi >> (i - 64)) & 1; }
    Bits* comp(Expr* e) {
        if ((work += e->w) > 2000000) return nullptr;
        unsigned w = e->w;
        Bits* r = new Bits(w);
        Bits& R = *r;
        auto bad = [&]() -> Bits* { delete r; return nullptr; };
        switch (e->k) {
        case EConst: for (unsigned i = 0; i < w; ++i) R[i].c = cbit(e, i); return r;
        case ESym: {
            auto it = col.find((u32)e->val);
            if (it == col.end()) return bad();
            for (unsigned i = 0; i < w; ++i) { u32 k = it->second + i; R[i].m.assign(k / 64 + 1, 0); R[i].m[k / 64] = 1ULL << (k % 64); }
            return r;
        }
        case EXor: {
            auto a = get(e->a), b = get(e->b);
            if (!a || !b) return bad();
            for (unsigned i = 0; i < w; ++i) { R[i] = (*a)[i]; R[i].add((*b)[i]); }
            return r;
        }
        case EAnd: case EOr: {
            auto a = get(e->a), b = get(e->b);
            if (!a || !b) return bad();
            for (unsigned i = 0; i < w; ++i) {
                const Row &x = (*a)[i], &y = (*b)[i];
                bool zero = e->k == EOr;     // absorbing value
                if (x.isConst()) { if (x.c == zero) R[i].c = zero; else R[i] = y; }
                else if (y.isConst()) { if (y.c == zero) R[i].c = zero; else R[i] = x; }
                else if (x.m == y.m && x.c == y.c) R[i] = x;
                else return bad();
            }
            return r;
        }
        case EAdd: {
            // no carries: at most one operand non-zero per bit; or (0 - bit)
            auto a = get(e->a), b = get(e->b);
            if (!a || !b) return bad();
            for (unsigned i = 0; i < w; ++i) {
                const Row &x = (*a)[i], &y = (*b)[i];
                if (x.isConst() && !x.c) R[i] = y;
                else if (y.isConst() && !y.c) R[i] = x;
                else return bad();
            }
            return r;
        }
        case EMul: {
            Expr *k = e->a, *x = e->b;
            if (!isC(k)) std::swap(k, x);
            if (!isC(k) || w > 64) return bad();
            auto a = get(x);
            if (!a) return bad();
            // single-bit operand times a constant, or power of two
            unsigned nz = 0;
            for (unsigned i = 0; i < w; ++i) if (!(*a)[i].isConst() || (*a)[i].c) nz++;
            if (nz == 0) return r;
            if (nz == 1 && (!(*a)[0].isConst() || (*a)[0].c)) {
                for (unsigned i = 0; i < w; ++i) if ((k->val >> i) & 1) R[i] = (*a)[0];
                return r;
            }
            if (k->val && !(k->val & (k->val - 1))) {
                unsigned s = __builtin_ctzll(k->val);
                for (unsigned i = s; i < w; ++i) R[i] = (*a)[i - s];
                return r;
            }
            return bad();
        }
        case EShl: case ELShr: case EAShr: {
            if (!isC(e->b)) return bad();
            auto a = get(e->a);
            if (!a) return bad();
            u64 s = e->b->val;
            for (unsigned i = 0; i < w; ++i) {
                if (e->k == EShl) { if (i >= s) R[i] = (*a)[i - s]; }
                else if (s < w && i + s < w) R[i] = (*a)[i + s];
                else if (e->k == EAShr) R[i] = (*a)[w - 1];
            }
            return r;
        }
        case EExtract: {
            auto a = get(e->a);
            if (!a) return bad();
            for (unsigned i = 0; i < w; ++i) R[i] = (*a)[e->val + i];
            return r;
        }
        case EConcat: {
            auto a = get(e->a), b = get(e->b);
            if (!a || !b) return bad();
            for (unsigned i = 0; i < w; ++i) R[i] = i < e->b->w ? (*b)[i] : (*a)[i - e->b->w];
            return r;
        }
        case EZExt: case ESExt: {
            auto a = get(e->a);
            if (!a) return bad();
            for (unsigned i = 0; i < w; ++i) {
                if (i < e->a->w) R[i] = (*a)[i];
                else if (e->k == ESExt) R[i] = a->back();
            }
            return r;
        }
        case EIte: {
            auto c = get(e->a);
            if (!c) return bad();
            auto a = get(e->b), b = get(e->c);
            if (!a || !b) return bad();
            for (unsigned i = 0; i < w; ++i) {
                Row d = (*a)[i];
                d.add((*b)[i]);
                if (!d.isConst()) return bad();
                R[i] = (*b)[i];
                if (d.c) R[i].add((*c)[0]);
            }
            return r;
        }
        case EEq: {
            if (e->a->w == 1) {
                auto a = get(e->a), b = get(e->b);
                if (!a || !b) return bad();
                R[0] = (*a)[0]; R[0].add((*b)[0]); R[0].c ^= 1;
                return r;
            }
            // at most one non-constant bit of difference
            auto a = get(e->a), b = get(e->b);
            if (!a || !b) return bad();
            Row only; unsigned n = 0;
            for (size_t i = 0; i < a->size(); ++i) {
                Row d = (*a)[i];
                d.add((*b)[i]);
                if (d.isConst()) { if (d.c) { R[0].c = false; R[0].m.clear(); return r; } continue; }
                only = d; if (++n > 1) return bad();
            }
            if (!n) { R[0].c = true; return r; }
            R[0] = only; R[0].c ^= 1;
            return r;
        }
        default: return bad();
        }
    }
};

struct Sys {
    std::vector<std::pair<int, Row>> rows;   // by leading column, fully triangular
    std::unordered_map<int, size_t> at;
    void reduce(Row& r) const {
        for (;;) {
            int l = r.lead();
            // eliminate from the leading column downwards
            bool ch = false;
            for (int c = l; c >= 0; --c) {
                if (c / 64 >= (int)r.m.size() || !((r.m[c / 64] >> (c % 64)) & 1)) continue;
                auto it = at.find(c);
                if (it == at.end()) continue;
                r.add(rows[it->second].second);
                ch = true;
            }
            if (!ch) return;
        }
    }
    // row == 0; false if inconsistent
    bool add(Row r) {
        reduce(r);
        if (r.isConst()) return !r.c;
        int l = r.lead();
        at[l] = rows.size();
        rows.push_back({l, r});
        return true;
    }
};
} // namespace

SatRes gf2Check(const std::vector<Expr*>& sl, const std::vector<u32>& ids, std::vector<std::pair<u32, u64>>& model) {
    std::unordered_map<u32, u32> col;
    u32 nc = 0;
    for (u32 id : ids) { col[id] = nc; nc += symWidth(id); }
    if (nc > 4096) return UNKNOWN;
    Lin L(col);
    Sys S;
    std::vector<std::vector<Row>> diseq;
    std::vector<Expr*> todo(sl.rbegin(), sl.rend());
    while (!todo.empty()) {
        Expr* e = todo.back(); todo.pop_back();
        bool neg = false;
        if (e->k == EAnd && e->w == 1) { todo.push_back(e->a); todo.push_back(e->b); continue; }
        Expr* x = e;
        if (e->k == EXor && isC(e->a)) { neg = e->a->val; x = e->b; }
        if (x->k == EOr && x->w == 1 && neg) { todo.push_back(mkNot(x->a)); todo.push_back(mkNot(x->b)); continue; }
        if (x->k == EEq && x->a->w > 1) {
            auto a = L.get(x->a), b = L.get(x->b);
            if (!a || !b) return UNKNOWN;
            std::vector<Row> d;
            for (size_t i = 0; i < a->size(); ++i) { Row r = (*a)[i]; r.add((*b)[i]); d.push_back(r); }
            if (!neg) { for (auto& r : d) if (!S.add(r)) return UNSAT; }
            else diseq.push_back(d);
            continue;
        }
        if (x->k == EUlt && isC(x->b) && !neg && x->b->val && !(x->b->val & (x->b->val - 1)) && x->a->w <= 64) {
            auto a = L.get(x->a);
            if (!a) return UNKNOWN;
            for (unsigned i = __builtin_ctzll(x->b->val); i < a->size(); ++i) if (!S.add((*a)[i])) return UNSAT;
            continue;
        }
        if (x->k == EUlt && isC(x->a) && neg && !((x->a->val + 1) & x->a->val) && x->b->w <= 64) {   // x <= 2^k-1
            auto a = L.get(x->b);
            if (!a) return UNKNOWN;
            unsigned k = x->a->val == ~0ULL ? 64 : __builtin_ctzll(x->a->val + 1);
            for (unsigned i = k; i < a->size(); ++i) if (!S.add((*a)[i])) return UNSAT;
            continue;
        }
        auto a = L.get(e);
        if (!a) return UNKNOWN;
        Row r = (*a)[0];
        r.c ^= 1;
        if (!S.add(r)) return UNSAT;
    }
    // disequalities: each needs one differing bit
    u64 budget = 20000;
    bool out = false;
    std::function<bool(size_t, Sys&)> go = [&](size_t i, Sys& s) -> bool {
        if (i == diseq.size()) {
            // free columns zero; back-substitute from the lowest leading column
            std::vector<u8> v(nc, 0);
            auto rows = s.rows;
            std::sort(rows.begin(), rows.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : rows) {
                bool x = p.second.c;
                for (int c = 0; c < p.first; ++c)
                    if ((p.second.m[c / 64] >> (c % 64)) & 1) x ^= v[c];
                v[p.first] = x;
            }
            for (u32 id : ids) {
                u64 val = 0;
                for (unsigned b = 0; b < symWidth(id) && b < 64; ++b) val |= (u64)v[col[id] + b] << b;
                model.push_back({id, val});
            }
            return true;
        }
        for (auto& r : diseq[i]) {
            if (!budget--) { out = true; return false; }
            Row t = r;
            s.reduce(t);
            if (t.isConst()) { if (t.c) return go(i + 1, s); continue; }
            Sys s2 = s;
            t.c ^= 1;
            if (!s2.add(t)) continue;
            if (go(i + 1, s2)) return true;
            if (out) return false;
        }
        return false;
    };
    for (auto& d : diseq) {
        bool any = false;
        for (auto& r : d) { Row t = r; S.reduce(t); if (!t.isConst() || t.c) { any = true; break; } }
        if (!any) return UNSAT;
    }
    if (go(0, S)) return SAT;
    return out ? UNKNOWN : UNSAT;
}
