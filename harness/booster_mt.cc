//@ src table_lookup_booster.cc
//@ threads
//@ run C14 quick args=0-2 time=60 cover=1 -- two threads storing one and two elements with hashes that share a slot (of 1 to 3), then looking both up, in parallel; all interleavings with at most 3 preemptions at locks and accesses to the heap
//@ run C14 thorough args=0-2 time=300 cover=1 -- as quick, at most 4 preemptions
//@ assume interleavings are sequentially consistent
#include "sym.h"
#include <mutex>
#include "table_lookup_booster.h"
using namespace jungle;
static TableLookupBooster* t; static uint32_t h[3]; static uint64_t o[3]; static int k;
static void look(int i) {
    uint64_t off = 0;
    if (t->get(h[i], off).ok()) { bool ok = false; for (int j = 0; j < k; ++j) if (h[j] == h[i] && off == o[j]) ok = true; sym_assert(ok, "lookup returns the offset of another element"); sym_cover(1); }
}
static void worker(void* a) {
    int i = (int)(intptr_t)a;
    t->setIfNew(TableLookupBooster::Elem(h[i], 5, o[i]));
    if (i) t->setIfNew(TableLookupBooster::Elem(h[2], 6, o[2]));
    look(1 - i);
}
HARNESS {
    size_t n = sym_arg() + 1;
    t = new TableLookupBooster(n, nullptr, nullptr);
    k = 3;
    for (int i = 0; i < k; ++i) { h[i] = (uint32_t)(1 + sym_choose(0, 2, "hash") * n); o[i] = sym_range(1, ~0ull, "offset"); }
    sym_share_heap(1);
    sym_preempt_budget(sym_tier() ? 4 : 3);
    int id = sym_thread_create(worker, (void*)1);
    worker((void*)0);
    sym_thread_join(id);
    sym_preempt_budget(0); sym_share_heap(0);
    look(0); look(1);
    delete t;
}
