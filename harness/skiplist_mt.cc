//@ src skiplist.cc
//@ threads
//@ run C11 quick args=0-10 time=100 cover=1 -- two threads with one operation each (third thread reading in args 7, 8), all interleavings with at most 2 preemptions at atomic operations; list of up to 3 elements, layers 0..1 (args 9, 10: heights up to 3 layers), key of the inserted element symbolic
//@ run C11 thorough args=0-10 time=800 cover=1 -- as quick with at most 3 preemptions
//@ assume interleavings are sequentially consistent; threads switch at atomic operations, lock operations and yields
#include "sym.h"
#include "skiplist.h"
#include <cstring>
extern "C" { extern int (*jrt_rand_fn)(); }
struct N { skiplist_node sn; int key; };
static int cmpf(skiplist_node* a, skiplist_node* b, void*) { return _get_entry(a, N, sn)->key - _get_entry(b, N, sn)->key; }
static int gLayer[8], gTick[8];
static N nd[8]; static skiplist_raw sl;
static int gGrow[4];
// rand(): layers of the elements inserted while threads run are chosen up front
static int gWant = 0;
static int coin() { return gWant-- > 0 ? 0 : 1; }
static int rc[4]; static bool okr[4]; static int op[4], who[4];
static void ins(int i) { gWant = gLayer[i]; sym_assert(skiplist_insert(&sl, &nd[i].sn) == 0, "insert"); }
static N* of(skiplist_node* n) { return n ? _get_entry(n, N, sn) : nullptr; }
enum { INS, INSND, ERASE, ERASEQ, FIND, WALK, GE, PREV };
static void worker(void* a) {
    int t = (int)(intptr_t)a, i = who[t];
    switch (op[t]) {
    case INS: gWant = gLayer[i]; rc[t] = skiplist_insert(&sl, &nd[i].sn); break;
    case INSND: gWant = gLayer[i]; rc[t] = skiplist_insert_nodup(&sl, &nd[i].sn); break;
    case ERASE: rc[t] = skiplist_erase_node(&sl, &nd[i].sn); break;
    case ERASEQ: { N q; skiplist_init_node(&q.sn); q.key = nd[i].key; rc[t] = skiplist_erase(&sl, &q.sn); break; }
    case FIND: { N q; skiplist_init_node(&q.sn); q.key = nd[i].key; N* r = of(skiplist_find(&sl, &q.sn)); rc[t] = r ? 1 : 0; if (r) { sym_assert(r->key == q.key, "find returned another key"); skiplist_release_node(&r->sn); } break; }
    case GE: { N q; skiplist_init_node(&q.sn); q.key = nd[i].key; N* r = of(skiplist_find_greater_or_equal(&sl, &q.sn)); rc[t] = r ? r->key : -1; if (r) { sym_assert(r->key >= q.key, "find >= returned a smaller key"); skiplist_release_node(&r->sn); } break; }
    case PREV: { skiplist_node* c = skiplist_end(&sl); int last = 1 << 20; rc[t] = 0;
        while (c) { sym_assert(of(c)->key < last, "concurrent backward walk out of order"); last = of(c)->key; rc[t] |= 1 << (of(c) - nd); skiplist_node* p = skiplist_prev(&sl, c); skiplist_release_node(c); c = p; } break; }
    default: { skiplist_node* c = skiplist_begin(&sl); int last = -1; rc[t] = 0;
        while (c) { sym_assert(of(c)->key >= last, "concurrent walk out of order"); last = of(c)->key; rc[t] |= 1 << (of(c) - nd); skiplist_node* n = skiplist_next(&sl, c); skiplist_release_node(c); c = n; } break; }
    }
}
static void run(int n) {
    sym_preempt_budget(sym_tier() ? 3 : 2);
    int id[3];
    for (int t = 1; t < n; ++t) id[t] = sym_thread_create(worker, (void*)(intptr_t)t);
    worker((void*)0);
    for (int t = 1; t < n; ++t) sym_thread_join(id[t]);
    sym_preempt_budget(0);
}
// quiescent check: exactly the elements of `mask` are linked, in order, and no locks or references are left
static void settle(unsigned mask, unsigned used) {
    unsigned m = 0, c = 0; int last = -1;
    skiplist_node* cur = skiplist_begin(&sl);
    while (cur) { m |= 1u << (of(cur) - nd); sym_assert(of(cur)->key >= last, "order broken"); last = of(cur)->key; sym_assert(++c <= 8, "endless list"); skiplist_node* nx = skiplist_next(&sl, cur); skiplist_release_node(cur); cur = nx; }
    sym_assert(m == mask, "elements lost or resurrected by concurrent operations");
    sym_assert(skiplist_get_size(&sl) == c, "size wrong after concurrent operations");
    for (int i = 0; i < 8; ++i) if (used >> i & 1) {
        sym_assert(nd[i].sn.ref_count == 0 && nd[i].sn.accessing_next == 0 && nd[i].sn.being_modified == 0, "reference or lock left on a node");
        N q; skiplist_init_node(&q.sn); q.key = nd[i].key;
        skiplist_node* f = skiplist_find(&sl, &q.sn);
        bool any = false;
        for (int j = 0; j < 8; ++j) if ((mask >> j & 1) && nd[j].key == nd[i].key) any = true;
        sym_assert((f != nullptr) == any, "lookup wrong after concurrent operations");
        if (f) skiplist_release_node(f);
        if (!(mask >> i & 1)) sym_assert(!skiplist_is_valid_node(&nd[i].sn), "erased element still linked");
        else for (int l = 0; l <= nd[i].sn.top_layer; ++l) {    // reachable on every layer it belongs to
            skiplist_node* p = &sl.head; int steps = 0;
            while (p && p != &nd[i].sn && ++steps < 20) p = p->next[l];
            sym_assert(p == &nd[i].sn, "element missing on one of its layers");
        }
    }
    skiplist_node* ends[] = {&sl.head, &sl.tail};
    for (skiplist_node* e : ends) sym_assert(!e->being_modified && !e->accessing_next, "lock left on an end of the list");
    for (int l = 0; l < 3; ++l) {
        skiplist_node* p = sl.head.next[l]; int steps = 0;
        while (p != &sl.tail && ++steps < 20) { sym_assert(mask >> (of(p) - nd) & 1, "erased element reachable on a layer"); p = p->next[l]; }
    }
    for (int i = 0; i < 8; ++i) if (used >> i & 1) skiplist_free_node(&nd[i].sn);
    skiplist_free(&sl);
    sym_cover(1);
}
static void init(int n) {
    skiplist_init(&sl, cmpf);
    jrt_rand_fn = coin;
    for (int i = 0; i < 8; ++i) { skiplist_init_node(&nd[i].sn); nd[i].key = 10 * i; gLayer[i] = 0; }
    for (int i = 0; i < n; ++i) gLayer[i] = (int)sym_choose(0, 1, "layer");
}
HARNESS {
    switch (sym_arg()) {
    case 0:     // insert | insert next to each other
        init(3); ins(1); op[0] = INS; who[0] = 0; op[1] = INS; who[1] = 2; nd[0].key = (int)sym_range(0, 30, "key");
        run(2); sym_assert(!rc[0] && !rc[1], "insert fails"); settle(7, 7); break;
    case 1:     // insert | erase of the neighbour
        init(sym_tier() ? 3 : 2); ins(1); ins(2); op[0] = INS; who[0] = 0; op[1] = ERASE; who[1] = (int)sym_choose(1, 2, "victim");
        nd[0].key = (int)sym_range(0, 30, "key");
        run(2); sym_assert(!rc[0] && !rc[1], "operation fails"); settle(7 & ~(1 << who[1]), 7); break;
    case 2:     // erase | erase of neighbours
        init(3); ins(0); ins(1); ins(2); op[0] = ERASE; who[0] = 1; op[1] = ERASE; who[1] = sym_choose(0, 1, "side") ? 2 : 0;
        run(2); sym_assert(!rc[0] && !rc[1], "erase fails"); settle(7 & ~2 & ~(1 << who[1]), 7); break;
    case 3:     // erase | erase of the same element: exactly one succeeds
        init(2); ins(0); ins(1); op[0] = op[1] = sym_choose(0, 1, "byquery") ? ERASEQ : ERASE; who[0] = who[1] = 1;
        run(2); sym_assert((rc[0] == 0) != (rc[1] == 0), "element erased by both threads or by none"); settle(1, 3); break;
    case 4:     // two inserts of one key without duplicates: exactly one succeeds
        init(3); ins(2); op[0] = op[1] = INSND; who[0] = 0; who[1] = 1; nd[0].key = (int)sym_range(0, 30, "key"); nd[1].key = nd[0].key; sym_assume(nd[0].key != 20);
        run(2); sym_assert((rc[0] == 0) != (rc[1] == 0), "duplicate key inserted twice or not at all"); settle(4 | (rc[0] == 0 ? 1 : 2), 7); break;
    case 5:     // lookup of a present element while its neighbour goes away or a new one appears
        init(3); ins(0); ins(1); op[0] = FIND; who[0] = 1; 
        if (sym_choose(0, 1, "op")) { op[1] = ERASE; who[1] = 0; run(2); sym_assert(rc[0] == 1, "present element not found"); settle(2, 3); }
        else { op[1] = INS; who[1] = 2; nd[2].key = (int)sym_range(0, 30, "key"); sym_assume(nd[2].key != nd[1].key); run(2); sym_assert(rc[0] == 1, "present element not found"); settle(7, 7); } break;
    case 6:     // walk while an element is erased / inserted: every untouched element is met once
        init(3); ins(0); ins(2); op[0] = sym_choose(0, 1, "dir") ? WALK : PREV; op[1] = sym_choose(0, 1, "op") ? INS : ERASE;
        who[1] = op[1] == INS ? 1 : (int)sym_choose(0, 1, "v") * 2;
        run(2); { unsigned must = op[1] == INS ? 5 : 5 & ~(1 << who[1]); sym_assert((rc[0] & must) == (int)must && !(rc[0] & ~7), "concurrent walk missed an element"); sym_assert(!rc[1], "operation fails"); settle(op[1] == INS ? 7 : must, 7); } break;
    case 7:     // insert and erase of one key, lookup beside them
        init(3); ins(1); op[0] = INS; who[0] = 0; op[1] = ERASE; who[1] = 1; op[2] = GE; who[2] = 2; gLayer[2] = 0; ins(2);
        run(3); sym_assert(rc[2] == 20, "present element not found"); sym_assert(!rc[0] && !rc[1], "operation fails"); settle(5, 7); break;
    case 9: case 10:    // erase of a tall element | insert or erase of its neighbours of every height
        init(0); gLayer[0] = 1; ins(0); gLayer[1] = 2; ins(1); gLayer[2] = (int)sym_choose(0, 2, "layer");
        sym_assert(nd[1].sn.top_layer == 2, "an element is not as tall as asked");
        op[0] = ERASE; who[0] = 1;
        if (sym_arg() == 9) { op[1] = INS; who[1] = 2; nd[2].key = (int)sym_range(0, 30, "key"); }
        else { ins(2); op[1] = ERASE; who[1] = (int)sym_choose(0, 1, "side") * 2; }
        run(2); sym_assert(!rc[0] && !rc[1], "operation fails"); settle(sym_arg() == 9 ? 5 : 5 & ~(1 << who[1]), 7); break;
    default:    // erased element is never met by a walk that starts afterwards; memory safe to free only when unused
        init(2); ins(0); ins(1); op[0] = WALK; op[1] = ERASE; who[1] = 1;
        run(2); sym_assert(skiplist_is_safe_to_free(&nd[1].sn), "erased element never becomes safe to free"); settle(1, 3); break;
    }
}
