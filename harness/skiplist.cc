//@ src skiplist.cc
//@ run C10 quick args=0-5 time=60 cover=1,2,3 -- every sequence of 4 (thorough 5) operations out of {insert, insert without duplicates, erase node, erase by key, find, find <=, find >=} over 3 (thorough 4) nodes with symbolic keys (0..7: every order and every pattern of duplicates; thorough 0..255), layers 0..1 chosen freely; then a full walk in both directions and one lookup of each kind with a symbolic query; arg 0 multiset, 1 set, 2 layer growth, 3 config, 4 cursor over removed nodes, 5 random-layer function for fanout 2..5
//@ run C10 thorough args=0-5 time=800 cover=1,2,3 -- as quick, deeper, layers 0..2
#include "sym.h"
#include "skiplist.h"
#include <cstring>
extern "C" { extern int (*jrt_rand_fn)(); }
struct N { skiplist_node sn; uint8_t key; bool in; };
static int cmpf(skiplist_node* a, skiplist_node* b, void*) {
    N *x = _get_entry(a, N, sn), *y = _get_entry(b, N, sn);
    return x->key < y->key ? -1 : x->key > y->key ? 1 : 0;
}
static uint64_t gKeys = 7;
static int gGrow, gMaxLayer;
static int coin() { if (gGrow >= gMaxLayer || sym_choose(0, 1, "grow") == 0) return 1; gGrow++; return 0; }
static N* nodes; static size_t nn; static skiplist_raw sl;
static N* of(skiplist_node* n) { return n ? _get_entry(n, N, sn) : nullptr; }
static size_t count() { size_t c = 0; for (size_t i = 0; i < nn; ++i) c += nodes[i].in; return c; }
static void put(skiplist_node* n) { if (n) skiplist_release_node(n); }
static int ins(N* n, bool nodup) { gGrow = 0; return nodup ? skiplist_insert_nodup(&sl, &n->sn) : skiplist_insert(&sl, &n->sn); }
static void lookups(uint8_t q) {
    N query; skiplist_init_node(&query.sn); query.key = q;
    bool eq = false, le = false, ge = false; uint8_t mx = 0, mn = 255;
    for (size_t i = 0; i < nn; ++i) if (nodes[i].in) {
        uint8_t k = nodes[i].key;
        if (k == q) eq = true;
        if (k <= q) { le = true; if (k > mx) mx = k; }
        if (k >= q) { ge = true; if (k < mn) mn = k; }
    }
    N* r = of(skiplist_find(&sl, &query.sn));
    sym_assert((r != nullptr) == eq && (!r || (r->in && r->key == q)), "find: wrong element or wrong absence");
    if (r) put(&r->sn);
    r = of(skiplist_find_smaller_or_equal(&sl, &query.sn));
    sym_assert((r != nullptr) == le && (!r || (r->in && r->key == mx)), "find <=: not the closest smaller element");
    if (r) put(&r->sn);
    r = of(skiplist_find_greater_or_equal(&sl, &query.sn));
    sym_assert((r != nullptr) == ge && (!r || (r->in && r->key == mn)), "find >=: not the closest greater element");
    if (r) put(&r->sn);
    skiplist_free_node(&query.sn);
}
static void walk() {
    bool seen[8]; memset(seen, 0, sizeof seen);
    size_t c = 0; int last = -1;
    skiplist_node* cur = skiplist_begin(&sl);
    while (cur) {
        N* n = of(cur);
        sym_assert(n->in && !seen[n - nodes], "forward walk meets an erased element or one twice");
        seen[n - nodes] = true;
        sym_assert((int)n->key >= last, "forward walk is not in order");
        last = n->key;
        sym_assert(++c <= nn, "endless forward walk");
        skiplist_node* nx = skiplist_next(&sl, cur);
        put(cur); cur = nx;
    }
    sym_assert(c == count() && skiplist_get_size(&sl) == c, "forward walk or size misses elements");
    last = 256; c = 0;
    bool dup = false;
    for (size_t i = 0; i < nn; ++i) for (size_t j = 0; j < i; ++j) if (nodes[i].in && nodes[j].in && nodes[i].key == nodes[j].key) dup = true;
    if (dup) return;    // walking backwards skips equal keys by definition
    cur = skiplist_end(&sl);
    while (cur) {
        N* n = of(cur);
        sym_assert(n->in && (int)n->key < last, "backward walk is not in order");
        last = n->key; c++;
        skiplist_node* pv = skiplist_prev(&sl, cur);
        put(cur); cur = pv;
    }
    sym_assert(c == count(), "backward walk misses elements");
}
static void fini() {
    for (size_t i = 0; i < nn; ++i) {
        sym_assert(nodes[i].sn.ref_count == 0 && nodes[i].sn.accessing_next == 0 && nodes[i].sn.being_modified == 0, "reference or lock left on a node");
        if (nodes[i].in) { sym_assert(skiplist_is_valid_node(&nodes[i].sn) && !skiplist_is_safe_to_free(&nodes[i].sn), "linked element reported as removable memory");
            sym_assert(skiplist_erase_node(&sl, &nodes[i].sn) == 0, "erase fails"); nodes[i].in = false;
            skiplist_wait_for_free(&nodes[i].sn); }
        sym_assert(!skiplist_is_valid_node(&nodes[i].sn), "erased element still valid");
    }
    walk();
    for (size_t i = 0; i < nn; ++i) skiplist_free_node(&nodes[i].sn);
    skiplist_free(&sl);
    delete[] nodes;
}
static void init(size_t n) {
    nn = n; nodes = new N[n];
    for (size_t i = 0; i < n; ++i) { skiplist_init_node(&nodes[i].sn); nodes[i].in = false; nodes[i].key = (uint8_t)sym_range(0, gKeys, "key"); }
    skiplist_init(&sl, cmpf);
    jrt_rand_fn = coin;
}
static void seq(bool nodup) {
    gMaxLayer = sym_tier() ? 2 : 1;
    size_t N_ = sym_tier() ? 4 : 3, ops = sym_tier() ? 5 : 4;
    uint64_t base = sym_live_heap();
    init(N_);
    sym_assert(!skiplist_begin(&sl) && !skiplist_end(&sl) && skiplist_get_size(&sl) == 0, "new list is not empty");
    for (size_t i = 0; i < ops; ++i) {
        N* n = &nodes[sym_choose(0, N_ - 1, "node")];
        if (!n->in) {
            bool dup = false;
            for (size_t j = 0; j < nn; ++j) if (nodes[j].in && nodes[j].key == n->key) dup = true;
            int r = ins(n, nodup);
            if (nodup && dup) sym_assert(r != 0, "duplicate accepted");
            else { sym_assert(r == 0, "insert fails"); n->in = true; }
        } else if (sym_choose(0, 1, "bykey") == 0) {
            sym_assert(skiplist_erase_node(&sl, &n->sn) == 0, "erase fails"); n->in = false;
            sym_assert(skiplist_is_safe_to_free(&n->sn), "erased unused element not safe to free");
            sym_assert(skiplist_erase_node(&sl, &n->sn) != 0, "erased twice");
        } else {
            N q; skiplist_init_node(&q.sn); q.key = n->key;
            size_t before = count();
            sym_assert(skiplist_erase(&sl, &q.sn) == 0, "erase by key fails");
            size_t gone = 0;
            for (size_t j = 0; j < nn; ++j) if (nodes[j].in && !skiplist_is_valid_node(&nodes[j].sn)) { sym_assert(nodes[j].key == q.key, "erase by key removed another key"); nodes[j].in = false; gone++; }
            sym_assert(gone == 1 && count() == before - 1, "erase by key must remove exactly one element");
            skiplist_free_node(&q.sn);
        }
    }
    walk();
    lookups((uint8_t)sym_range(0, gKeys, "query"));
    fini();
    sym_assert(sym_live_heap() == base, "memory leaked");
    sym_cover(1);
}
// towers: layers chosen freely up to 3, insertion in any order, removal in any order
static void towers() {
    gMaxLayer = 1 + sym_tier();
    init(3);
    for (size_t i = 0; i < 3; ++i) { sym_assert(ins(&nodes[i], false) == 0, "insert"); nodes[i].in = true; }
    walk(); lookups((uint8_t)sym_range(0, gKeys, "query"));
    N* n = &nodes[sym_choose(0, 2, "victim")];
    sym_assert(skiplist_erase_node(&sl, &n->sn) == 0, "erase"); n->in = false;
    walk();
    sym_assert(ins(n, false) == 0, "insert again"); n->in = true;
    walk();
    fini();
    sym_cover(2);
}
static void config() {
    gMaxLayer = 3;
    init(2);
    skiplist_raw_config c = skiplist_get_default_config();
    c.fanout = 2; c.maxLayer = sym_choose(1, 12, "layers");
    skiplist_set_config(&sl, c);
    skiplist_raw_config d = skiplist_get_config(&sl);
    sym_assert(d.fanout == 2 && d.maxLayer == c.maxLayer, "configuration not kept");
    for (size_t i = 0; i < 2; ++i) { sym_assert(ins(&nodes[i], false) == 0, "insert"); nodes[i].in = true; sym_assert(nodes[i].sn.top_layer < c.maxLayer, "layer limit exceeded"); }
    walk(); lookups((uint8_t)sym_range(0, gKeys, "query"));
    fini();
    sym_cover(3);
}
// a cursor whose element is erased continues with the elements that follow
static void cursor() {
    gMaxLayer = 1;
    init(3);
    for (size_t i = 0; i < 3; ++i) { sym_assert(ins(&nodes[i], false) == 0, "insert"); nodes[i].in = true; }
    sym_assume(nodes[0].key < nodes[1].key && nodes[1].key < nodes[2].key);
    size_t at = sym_choose(0, 2, "at");
    skiplist_node* cur = &nodes[at].sn; skiplist_grab_node(cur);
    sym_assert(skiplist_erase_node(&sl, cur) == 0, "erase"); nodes[at].in = false;
    sym_assert(!skiplist_is_safe_to_free(cur), "element in use reported as safe to free");
    bool also = sym_choose(0, 1, "also");
    if (also && at < 2) { sym_assert(skiplist_erase_node(&sl, &nodes[at + 1].sn) == 0, "erase next"); nodes[at + 1].in = false; }
    N* want = nullptr;
    for (size_t i = at + 1; i < 3; ++i) if (nodes[i].in) { want = &nodes[i]; break; }
    skiplist_node* nx = skiplist_next(&sl, cur);
    sym_assert(of(nx) == want, "cursor on an erased element loses its place");
    put(nx);
    want = nullptr;
    for (size_t i = 0; i < at; ++i) if (nodes[i].in) want = &nodes[i];
    skiplist_node* pv = skiplist_prev(&sl, cur);
    sym_assert(of(pv) == want, "cursor on an erased element loses its place backwards");
    put(pv);
    put(cur);
    sym_assert(skiplist_is_safe_to_free(cur), "released erased element not safe to free");
    fini();
}
static uint32_t gRnd[4]; static int gRn;
static int rnd4() { return gRn < 4 ? (int)gRnd[gRn++] : 1; }
static void layers() {   // layer count follows the random numbers: number of leading multiples of the fanout, below the limit
    init(1);
    skiplist_raw_config c = skiplist_get_default_config();
    c.fanout = sym_choose(2, 5, "fanout"); c.maxLayer = sym_choose(1, 4, "limit");
    skiplist_set_config(&sl, c);
    for (int i = 0; i < 4; ++i) gRnd[i] = (uint32_t)sym_range(0, 0x7fffffff, "rand");
    jrt_rand_fn = rnd4;
    sym_assert(skiplist_insert(&sl, &nodes[0].sn) == 0, "insert"); nodes[0].in = true;
    sym_assert(nodes[0].sn.top_layer < c.maxLayer, "layer limit exceeded");
    walk(); fini();
}
HARNESS {
    if (sym_tier()) gKeys = 255;
    switch (sym_arg()) { case 0: seq(false); break; case 1: seq(true); break; case 2: towers(); break; case 3: config(); break; case 4: cursor(); break; default: layers(); }
}
