//@ src
//@ run C04 quick args=0,1,2 time=60 cover=1,2,3 -- bitmaps of 1..40 bits with arbitrary initial content; any index, any value; one set from an arbitrary state (inductive step) and 3-step histories
//@ run C04 thorough args=0,1,2 time=200 cover=1,2,3 -- as quick with bitmaps up to 96 bits
#include "sym.h"
#include "generic_bitmap.h"
#include <cstring>
HARNESS {
    size_t mode = sym_arg(), max = sym_tier() ? 96 : 40;
    if (mode == 0) {        // one step from an arbitrary state
        size_t n = sym_choose(1, max, "bits"), bytes = (n + 7) / 8;
        uint8_t img[16]; sym_bytes(img, bytes, "img");
        GenericBitmap b(img, bytes, n);
        sym_assert(b.size() == n && b.getMemorySize() == bytes, "size not kept");
        uint64_t i = sym_range(0, n - 1, "i"), j = sym_range(0, n - 1, "j");
        bool v = sym_range(0, 1, "v");
        bool oi = (img[i / 8] >> (7 - i % 8)) & 1, oj = (img[j / 8] >> (7 - j % 8)) & 1;
        sym_assert(b.get(i) == oi && b.get(j) == oj, "get does not return the loaded bit");
        bool r = b.set(i, v);
        sym_assert(r == oi, "set does not return the previous bit");
        sym_assert(b.get(i) == v, "bit does not have the value just set");
        sym_assert(i == j || b.get(j) == oj, "setting one bit changed another");
        sym_cover(1);
    } else if (mode == 1) { // fresh bitmap is all zero, including exact allocation
        size_t n = sym_choose(1, max, "bits");
        GenericBitmap b(n);
        uint64_t i = sym_range(0, n - 1, "i");
        sym_assert(!b.get(i), "fresh bitmap has a bit set");
        b.set(i, true); sym_assert(b.get(i), "lost bit");
        b.set(i, false); sym_assert(!b.get(i), "bit cannot be cleared");
        for (size_t k = 0; k < n; ++k) sym_assert(!b.get(k), "bit set although cleared");
        sym_cover(2);
    } else {                // moveFrom takes over the region
        size_t n = sym_choose(1, 4, "bytes");
        uint8_t* m = (uint8_t*)malloc(n); sym_bytes(m, n, "img");
        uint8_t c[4]; memcpy(c, m, n);
        GenericBitmap b(sym_choose(0, 9, "old"));
        b.moveFrom(m, n, n * 8);
        sym_assert(b.getPtr() == m && b.size() == n * 8 && b.getMemorySize() == n, "moveFrom did not take the region");
        uint64_t i = sym_range(0, n * 8 - 1, "i");
        sym_assert(b.get(i) == ((c[i / 8] >> (7 - i % 8)) & 1), "moved bitmap reads differently");
        sym_cover(3);
    }
}
