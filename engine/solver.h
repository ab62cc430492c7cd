#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>
#include <string>

enum SatRes { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    u64 queries = 0;        // queries that reached Z3
    u64 cacheHits = 0;
    u64 modelHits = 0;      // decided by evaluating a known model
    u64 sat = 0, unsat = 0, unknown = 0;
    u64 probed = 0, abstracted = 0;   // settled by concrete probing / by abstraction of arithmetic
    u64 linear = 0;         // of those, settled by Gaussian elimination
    u64 domain = 0;         // of those, settled by exhausting small domains
    double secs = 0;
    double maxSecs = 0;
};
extern SolverStats gSS;

SatRes gf2Check(const std::vector<Expr*>& sl, const std::vector<u32>& ids, std::vector<std::pair<u32, u64>>& model);

struct Solver {
    Solver(unsigned timeoutMs);
    // Is (all constraints related to q) & q satisfiable?  If SAT and out, values
    // of the symbols in the slice are written over *out.
    SatRes check(const std::vector<Expr*>& cons, Expr* q, Model* out);
    std::string smt2(const std::vector<Expr*>& cons, Expr* q);
    unsigned timeoutMs;
    std::string dumpDir; unsigned dumpLeft = 0;
private:
    Z3_context ctx;
    Z3_solver fast, slow;
    Z3_ast tr(Expr* e);
    Z3_ast trB(Expr* e);
    Z3_ast trBV(Expr* e);
    Z3_ast sym(u32 id);
    Z3_ast trAbs(Expr* e, std::vector<Expr*>& opaque);
    SatRes probe(const std::vector<Expr*>& sl, const std::vector<u32>& ids, Model* base, std::vector<std::pair<u32,u64>>& model);
    SatRes domainCheck(const std::vector<Expr*>& sl, const std::vector<u32>& ids, std::vector<std::pair<u32,u64>>& model);
    std::unordered_map<u32, std::vector<u64>> domMemo;
    bool abstractUnsat(const std::vector<Expr*>& sl);
    std::unordered_map<u32, Z3_ast> absMemo;
    Z3_solver absS;
    u64 rng = 0x9E3779B97F4A7C15ull;
    std::unordered_map<u32, Z3_ast> syms;
    struct CacheEnt { SatRes r; std::vector<std::pair<u32,u64>> model; };
    struct VH { size_t operator()(const std::vector<u32>& v) const {
        size_t h = 1469598103934665603ULL; for (u32 x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
    std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;
};
