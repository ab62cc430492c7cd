//@ src table_lookup_booster.cc
//@ flags -fno-access-control
//@ run C14 quick args=0-2 time=60 cover=1,2 -- a lookup booster with 1 to 3 slots, every sequence of 3 insertions with symbolic hash (any with one slot, up to 5 else), sequence number and offset, then a lookup of a symbolic hash after every insertion
//@ run C14 thorough args=0-2 time=300 cover=1,2 -- as quick, 5 insertions
#include "sym.h"
#include <mutex>
#include "table_lookup_booster.h"
using namespace jungle;
HARNESS {
    size_t n = sym_arg() + 1; int k = sym_tier() ? 5 : 3;
    TableLookupBooster t(n, nullptr, nullptr);
    sym_assert(t.size() == n, "size");
    uint32_t h[8]; uint64_t s[8], o[8]; bool in[8];
    uint32_t q = sym_arg() ? (uint32_t)sym_choose(1, 5, "lookup") : (uint32_t)sym_range(1, 0xffffffff, "lookup");
    for (int i = 0; i < k; ++i) {
        h[i] = sym_arg() ? (uint32_t)sym_choose(1, 5, "hash") : (uint32_t)sym_range(1, 0xffffffff, "hash"); s[i] = sym_range(1, ~0ull - 1, "seq"); o[i] = sym_range(1, ~0ull, "offset");
        Status r = t.setIfNew(TableLookupBooster::Elem(h[i], s[i], o[i]));
        in[i] = r.ok();
        sym_assert(r.ok() || r == Status::ALREADY_EXIST, "status");
        bool newer = false, other = false; int prev = -1;
        for (int j = 0; j < i; ++j) if (in[j]) { if (h[j] == h[i]) { if (s[j] >= s[i]) newer = true; prev = j; } else other = true; }
        if (!newer) sym_assert(in[i], "an element is not stored although none with its hash is as new");
        if (newer && !other) sym_assert(!in[i], "an element is replaced by an older one");
        uint64_t off = 0;
        if (in[i]) { sym_assert(t.get(h[i], off).ok() && off == o[i], "the element just stored is not found"); sym_cover(1); }
        else { sym_assert(t.get(h[i], off).ok() && prev >= 0 && off == o[prev], "the newer element is not found"); sym_cover(2); }
        Status g = t.get(q, off); int last = -1; bool since = false;
        for (int j = 0; j <= i; ++j) if (in[j]) { if (h[j] == q) { last = j; since = false; } else since = true; }
        if (g.ok()) sym_assert(last >= 0 && off == o[last], "lookup returns something that is not the latest element of the hash");
        else sym_assert(g == Status::KEY_NOT_FOUND && (last < 0 || since), "the only element is lost");
    }
}
