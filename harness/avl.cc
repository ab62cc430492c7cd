//@ src avltree.cc
//@ run C12 quick args=0-3 time=60 cover=1,2,3,4 -- arg 0: insertion of 5 (thorough 7) elements with symbolic keys (0..7: every order and every pattern of duplicates) followed by one lookup of each kind with a symbolic query; arg 1: insertion of 7 (thorough 9) distinct keys in every order up to symmetry of the first 4 (thorough 5), then removal of 2 (thorough 3) freely chosen elements; arg 2: every sequence of 5 (thorough 7) insertions and removals over 4 elements with symbolic keys; arg 3: removal of every element in every order from trees of 5 (thorough 6) elements. After every step: search order, parent links, balance within one level and equal to the recorded balance, size, first, last, walks in both directions
//@ run C12 thorough args=0-3 time=800 cover=1,2,3,4 -- as quick, deeper
#include "sym.h"
#include "avltree.h"
#include <cstring>
struct N { avl_node a; uint8_t key; bool in; };
static int cmpf(avl_node* a, avl_node* b, void*) {
    N *x = _get_entry(a, N, a), *y = _get_entry(b, N, a);
    return x->key < y->key ? -1 : x->key > y->key ? 1 : 0;
}
static N* nodes; static size_t nn; static avl_tree t;
static N* of(avl_node* n) { return n ? _get_entry(n, N, a) : nullptr; }
static size_t visited;
static int height(avl_node* n, avl_node* parent, int lo, int hi, int depth) {
    if (!n) return 0;
    sym_assert(depth < 10, "tree is cyclic or not balanced");
    N* x = of(n);
    sym_assert(x->in, "removed element still in the tree");
    sym_assert((int)x->key > lo && (int)x->key < hi, "search order broken");
    sym_assert(avl_parent(n) == parent, "parent link broken");
    sym_assert(++visited <= nn, "tree is cyclic");
    int l = height(n->left, n, lo, x->key, depth + 1), r = height(n->right, n, x->key, hi, depth + 1);
    sym_assert(r - l >= -1 && r - l <= 1, "subtree heights differ by more than one");
    sym_assert(avl_bf(n) == r - l, "recorded balance differs from the real one");
    return 1 + (l > r ? l : r);
}
static void check() {
    size_t c = 0, k = 0;
    for (size_t i = 0; i < nn; ++i) c += nodes[i].in;
    visited = 0;
    height(t.root, nullptr, -1, 256, 0);
    sym_assert(visited == c, "element lost");
    int last = -1;
    for (avl_node* n = avl_first(&t); n; n = avl_next(n)) { sym_assert((int)of(n)->key > last && k < c, "forward walk broken"); last = of(n)->key; k++; }
    sym_assert(k == c, "forward walk misses elements");
    last = 256; k = 0;
    for (avl_node* n = avl_last(&t); n; n = avl_prev(n)) { sym_assert((int)of(n)->key < last && k < c, "backward walk broken"); last = of(n)->key; k++; }
    sym_assert(k == c, "backward walk misses elements");
}
static bool ins(N* x) {
    N* dup = nullptr;
    for (size_t i = 0; i < nn; ++i) if (nodes[i].in && nodes[i].key == x->key) dup = &nodes[i];
    avl_node* r = avl_insert(&t, &x->a, cmpf);
    if (dup) { sym_assert(r == &dup->a, "inserting an equal key must return the element present"); return false; }
    sym_assert(r == &x->a, "insert must return the new element");
    x->in = true;
    return true;
}
static void rem(N* x) { avl_remove(&t, &x->a); x->in = false; memset(&x->a, 0, sizeof x->a); }
static void lookups(uint8_t q) {
    N query; memset(&query, 0, sizeof query); query.key = q;
    N *eq = nullptr, *le = nullptr, *ge = nullptr;
    for (size_t i = 0; i < nn; ++i) if (nodes[i].in) {
        N* x = &nodes[i];
        if (x->key == q) eq = x;
        if (x->key <= q && (!le || x->key > le->key)) le = x;
        if (x->key >= q && (!ge || x->key < ge->key)) ge = x;
    }
    sym_assert(of(avl_search(&t, &query.a, cmpf)) == eq, "search: wrong element or wrong absence");
    sym_assert(of(avl_search_greater(&t, &query.a, cmpf)) == ge, "search_greater: not the smallest element >= query");
    sym_assert(of(avl_search_smaller(&t, &query.a, cmpf)) == le, "search_smaller: not the largest element <= query");
}
static void init(size_t n) {
    nn = n; nodes = new N[n]; memset(nodes, 0, sizeof(N) * n);
    memset(&t, 0xff, sizeof t);
    avl_init(&t, nullptr);
    sym_assert(!avl_first(&t) && !avl_last(&t), "new tree is not empty");
}
HARNESS {
    uint64_t arg = sym_arg();
    bool T = sym_tier();
    if (arg == 0) {
        init(T ? 7 : 5);
        for (size_t i = 0; i < nn; ++i) { nodes[i].key = (uint8_t)sym_range(0, 7, "key"); ins(&nodes[i]); check(); }
        lookups((uint8_t)sym_range(0, 8, "query"));
        sym_cover(1);
    } else if (arg == 1) {
        size_t n = T ? 9 : 7, k = T ? 5 : 4;
        init(n);
        uint8_t used = 0;
        for (size_t i = 0; i < n; ++i) {
            size_t v;
            if (i < k) { v = sym_choose(0, n - 1, "key"); bool u = false; for (size_t j = 0; j < i; ++j) u |= nodes[j].key == 2 * v; if (u) sym_reject(); }
            else { for (v = 0; v < n; ++v) { bool u = false; for (size_t j = 0; j < i; ++j) u |= nodes[j].key == 2 * v; if (!u) break; } }
            nodes[i].key = (uint8_t)(2 * v);
            ins(&nodes[i]);
        }
        check();
        for (size_t r = 0; r < (T ? 3 : 2); ++r) { N* x = &nodes[sym_choose(0, n - 1, "victim")]; if (!x->in) sym_reject(); rem(x); check(); }
        lookups((uint8_t)sym_range(0, 2 * n, "query"));
        sym_cover(2);
    } else if (arg == 2) {
        init(4);
        for (size_t i = 0; i < nn; ++i) nodes[i].key = (uint8_t)sym_range(0, 7, "key");
        for (size_t s = 0; s < (T ? 7 : 5); ++s) { N* x = &nodes[sym_choose(0, nn - 1, "node")]; if (x->in) rem(x); else ins(x); check(); }
        lookups((uint8_t)sym_range(0, 7, "query"));
        sym_cover(3);
    } else {
        size_t n = T ? 6 : 5;
        init(n);
        for (size_t i = 0; i < n; ++i) nodes[i].key = (uint8_t)(10 * i + 10);
        // shapes: built in one of several orders, padded with temporary elements which are removed again
        size_t rot = sym_choose(0, n - 1, "rotation"), dir = sym_choose(0, 1, "direction");
        for (size_t i = 0; i < n; ++i) { ins(&nodes[dir ? (rot + i) % n : (rot + n - i) % n]); check(); }
        for (size_t i = 0; i < n; ++i) { N* x = &nodes[sym_choose(0, n - 1, "victim")]; if (!x->in) sym_reject(); rem(x); check(); }
        sym_assert(!t.root && !avl_first(&t) && !avl_last(&t), "tree not empty after removing everything");
        sym_cover(4);
    }
    delete[] nodes;
}
