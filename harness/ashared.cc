//@ src
//@ threads
//@ run C19 quick args=0-8 time=60 cover=1 -- two (args 0-5) or three (6-7) threads on two shared ashared_ptr objects; every pair of operations out of {copy and read, a = b, b = a, a = a, reset, assign a new object, compare-exchange of a, of a with itself} (two operations per thread in args 0-5 for the second thread); all interleavings with at most 3 preemptions (2 with three threads or in args 0 and 5) at lock and atomic operations; arg 8: one thread, every sequence of 3 operations out of {copy, reset, new object, null, compare-exchange weak or strong} on three pointers compared with a model
//@ run C19 thorough args=0-8 time=600 cover=1 -- as quick with at most 4 preemptions
//@ assume interleavings are sequentially consistent; threads switch at atomic operations, lock operations and yields
#include "sym.h"
#include "ashared_ptr.h"
static int live, made;
struct T { uint64_t v; uint32_t magic; T(uint64_t x) : v(x), magic(0x5a5a) { live++; made++; } ~T() { sym_assert(magic == 0x5a5a, "object destroyed twice"); magic = 0; live--; } };
static ashared_ptr<T>* p[2]; static uint64_t val[6], inc; static int nInc[3];
static uint64_t op[3][2]; static int nOps[3];
static void readOf(ashared_ptr<T>& x) {
    if (x == nullptr) return;
    sym_assert(x->magic == 0x5a5a, "a holder's object is destroyed");
    sym_assert((*x).v - val[0] < 0x1000 || (*x).v - val[1] < 0x1000, "wrong object");
}
static void one(uint64_t o, int t) {
    ashared_ptr<T>&a = *p[0], &b = *p[1];
    switch (o) {
    case 0: { ashared_ptr<T> l(a); readOf(l); sym_yield(); readOf(l); break; }
    case 1: a = b; break;
    case 2: b = a; break;
    case 3: a = *p[0]; break;
    case 4: a.reset(); break;
    case 5: { a = ashared_ptr<T>(new T(val[1] + 0x100)); break; }
    case 6: for (;;) {      // a counter incremented without a lock
            ashared_ptr<T> e = a;
            if (e == nullptr) break;
            ashared_ptr<T> n(new T(e->v + 1));
            if (a.compare_exchange_strong(e, n, std::memory_order_relaxed)) { nInc[t]++; break; }
        } break;
    default: { ashared_ptr<T> n(new T(val[1] + 0x200)); a.compare_exchange(a, n); break; }
    }
}
static void worker(void* x) { int t = (int)(intptr_t)x; for (int i = 0; i < nOps[t]; ++i) one(op[t][i], t); }
static void sequential() {
    ashared_ptr<T> x[3]; int id[3] = {-1, -1, -1}; T* raw[8]; int made_ = 0; bool weak = sym_choose(0, 1, "weak");
    auto fresh = [&]() { raw[made_] = new T(made_ + 1); return made_++; };
    id[0] = fresh(); x[0] = ashared_ptr<T>(raw[0]);
    int n = sym_tier() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        int k = (int)sym_choose(0, 2, "to"), j = (int)sym_choose(0, 2, "from");
        switch (sym_choose(0, 4, "op")) {
        case 0: x[k] = x[j]; id[k] = id[j]; break;
        case 1: x[k].reset(); id[k] = -1; break;
        case 2: { int f = fresh(); x[k] = ashared_ptr<T>(raw[f]); id[k] = f; break; }
        case 3: x[k] = ashared_ptr<T>((T*)nullptr); id[k] = -1; break;
        default: {
            ashared_ptr<T> e; int eid = -1; int m = (int)sym_choose(0, 2, "expected"); e = x[m]; eid = id[m];
            bool ok = weak ? x[k].compare_exchange_weak(e, x[j], std::memory_order_relaxed) : x[k].compare_exchange_strong(e, x[j], std::memory_order_relaxed);
            sym_assert(ok == (id[k] == eid), "compare-exchange succeeds or fails wrongly");
            if (ok) id[k] = id[j]; else eid = id[k];
            sym_assert(e == (eid < 0 ? nullptr : raw[eid]), "expected pointer after compare-exchange");
            break; }
        }
        unsigned held = 0;
        for (int u = 0; u < 3; ++u) {
            sym_assert(x[u] == (id[u] < 0 ? nullptr : raw[id[u]]), "a pointer refers to another object");
            for (int v = 0; v < 3; ++v) sym_assert((x[u] == x[v]) == (id[u] == id[v]), "comparison of two pointers");
            if (id[u] >= 0) { held |= 1u << id[u]; sym_assert(x[u].get() == raw[id[u]] && x[u]->v == (uint64_t)id[u] + 1 && (*x[u]).magic == 0x5a5a, "access through a pointer"); }
        }
        sym_assert(live == __builtin_popcount(held), "an object is leaked or freed too early");
    }
    for (auto& y : x) y.reset();
    sym_assert(live == 0, "an object is leaked"); sym_cover(1);
}
HARNESS {
    unsigned a = sym_arg();
    if (a == 8) { sequential(); return; }
    val[0] = 0x10000 + sym_range(0, 0x100, "v0"); val[1] = 0x80000 + sym_range(0, 0x100, "v1");
    p[0] = new ashared_ptr<T>(new T(val[0])); p[1] = new ashared_ptr<T>(new T(val[1]));
    int n = a >= 6 ? 3 : 2; bool only = false;
    if (a < 6) { nOps[0] = 1; nOps[1] = 2; op[0][0] = a == 5 ? sym_choose(5, 7, "op") : a; op[1][0] = sym_choose(0, 7, "op"); op[1][1] = sym_choose(0, 7, "op"); }
    else { for (int t = 0; t < 3; ++t) { nOps[t] = 1; op[t][0] = a == 6 ? 6 : sym_choose(0, 2, "op"); } only = a == 6; }
    sym_preempt_budget((sym_tier() ? 4 : 3) - (n > 2 || a == 0 || a == 5));
    int id[3];
    for (int t = 1; t < n; ++t) id[t] = sym_thread_create(worker, (void*)(intptr_t)t);
    worker((void*)0);
    for (int t = 1; t < n; ++t) sym_thread_join(id[t]);
    sym_preempt_budget(0);
    readOf(*p[0]); readOf(*p[1]);
    if (only) { int k = nInc[0] + nInc[1] + nInc[2]; sym_assert(k == 3 && (*p[0])->v == val[0] + k, "an update by compare-exchange is lost"); }
    if (*p[1] == nullptr) delete p[1];
    else { ashared_ptr<T> c(*p[1]); delete p[1]; readOf(c); sym_assert(!(c == nullptr), "copy lost its object"); sym_assert(c == c.get(), "comparison with the raw pointer"); }
    delete p[0];
    sym_assert(live == 0, "an object is leaked");
    sym_cover(1);
}
