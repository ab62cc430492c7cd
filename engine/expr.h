// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum EK : u8 { EConst, ESym, EAdd, EMul, EUDiv, ESDiv, EURem, ESRem,
               EAnd, EOr, EXor, EShl, ELShr, EAShr, EEq, EUlt, ESlt,
               EIte, EConcat, EExtract, EZExt, ESExt };

struct SymSet { std::vector<u32> v; };

struct Expr {
    EK k;
    uint16_t w;
    u32 id;
    Expr* a; Expr* b; Expr* c;
    u64 val;            // const low / sym id / extract offset
    u64 hi;             // const high (w > 64)
    u64 may;            // bits that may be one (w <= 64), else ~0
    const SymSet* syms; // nullptr == none
    u64 evEpoch;
    u64 ev;
    Z3_ast z;
    u64 hash;
    bool hard;          // contains division/remainder or a wide multiplication
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sext64(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ULL << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ m) - m);
}
inline bool isC(const Expr* e) { return e->k == EConst; }

Expr* mkConst(u64 v, unsigned w, u64 hi = 0);
Expr* mkSym(unsigned w, const std::string& name);   // fresh
const std::string& symName(u32 id);
unsigned symWidth(u32 id);
u32 numSyms();
Expr* symExpr(u32 id);

Expr* mkBin(EK k, Expr* a, Expr* b);
Expr* mkSub(Expr* a, Expr* b);
Expr* mkNot(Expr* a);       // boolean (w1) or bitwise
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned off, unsigned w);
Expr* mkExtractRaw(Expr* e, unsigned off, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(EEq, a, b); }
inline Expr* mkUle(Expr* a, Expr* b) { return mkNot(mkBin(EUlt, b, a)); }
inline Expr* mkSle(Expr* a, Expr* b) { return mkNot(mkBin(ESlt, b, a)); }

u64 umaxExpr(Expr* e);      // cheap upper bound (w <= 64)
bool opaqueKind(const Expr* e);
struct Model { std::vector<u64> v; u64 epoch; };
u64 freshEpoch();
// evaluates for w <= 64 exprs (wide sub-expressions supported through evalWide)
u64 evalExpr(Expr* e, const Model& m);
u64 numExprs();
std::string exprStr(Expr* e, int depth = 6);
