//@ src
//@ threads
//@ run C04 quick args=0-1 time=60 cover=1 -- two threads, each changing and reading one bit (arg 0) or two bits (arg 1) of a 2-byte bitmap (default and 8 lock partitions) at freely chosen positions, all interleavings with at most 2 preemptions at lock operations and at every access to the bitmap's memory
//@ run C04 thorough args=0-1 time=300 cover=1 -- as quick with 3 preemptions
//@ assume interleavings are sequentially consistent
#include "sym.h"
#include "generic_bitmap.h"
static GenericBitmap* b;
static uint64_t ix[2][2]; static bool val[2][2], old[2][2];
static int n;
static void work(void* a) { int t = (int)(intptr_t)a; for (int i = 0; i < n; ++i) { old[t][i] = b->set(ix[t][i], val[t][i]); sym_assert(b->get(ix[t][i]) == val[t][i], "a bit only this thread changes does not keep its value"); } }
HARNESS {
    n = 1 + (int)sym_arg();
    b = new GenericBitmap(16, sym_choose(0, 1, "partitions") * 8);
    uint64_t init[2] = { sym_choose(0, 1, "init"), 0 };
    for (int i = 0; i < 16; ++i) b->set(i, init[0]);
    for (int t = 0; t < 2; ++t) for (int i = 0; i < n; ++i) {
        // positions: all in one byte, or across the two bytes
        ix[t][i] = n == 1 ? sym_choose(0, t ? 9 : 1, "bit") : (t ? 6 + 2 * i : 5 + 2 * i);
        val[t][i] = n == 1 ? sym_choose(0, 1, "val") : !init[0];
    }
    if (ix[0][0] == ix[1][0]) sym_reject();
    sym_share(b->getPtr(), 2);
    sym_preempt_budget(sym_tier() ? 3 : 2);
    int id = sym_thread_create(work, (void*)1);
    work((void*)0);
    sym_thread_join(id);
    sym_preempt_budget(0);
    for (int t = 0; t < 2; ++t) for (int i = 0; i < n; ++i) {
        sym_assert(b->get(ix[t][i]) == val[t][i], "update of a bit lost");
        sym_assert(old[t][i] == (bool)init[0], "previous value of the bit wrong");
    }
    for (int k = 0; k < 16; ++k) { bool touched = false; for (int t = 0; t < 2; ++t) for (int i = 0; i < n; ++i) touched |= ix[t][i] == (uint64_t)k; if (!touched) sym_assert(b->get(k) == (bool)init[0], "another bit changed"); }
    delete b;
    sym_cover(1);
}
