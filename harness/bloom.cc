//@ src bloomfilter.cc murmurhash3.cc
//@ run C03 quick args=0,1,2,3 time=60 cover=1,2,3,4 -- bitmaps of 8/24/64 bits, 1..3 hash functions, hash pairs of any value (arg 0); real keys of 0..9 symbolic bytes (args 1-3); up to 2 insertions then check, export, move
//@ run C03 thorough args=0,1,2,3 time=300 cover=1,2,3,4 -- as quick, 4 hash functions, 128 bits, 3 insertions
//@ assume std::mutex as mutual exclusion (single-threaded harness)
#include "sym.h"
#include "bloomfilter.h"
#include <cstring>
#include <cstdlib>
HARNESS {
    size_t mode = sym_arg();
    size_t nh = sym_choose(1, sym_tier() ? 4 : 3, "hashes");
    static const size_t S[] = {8, 24, 64, 128};
    size_t bits = S[sym_choose(0, sym_tier() ? 3 : 2, "bits")];
    if (mode == 0) {
        BloomFilter bf(bits - sym_choose(0, 7, "slack"), (uint8_t)nh);   // sizes are rounded up to bytes
        sym_assert(bf.size() == bits, "bitmap size not rounded up to whole bytes");
        uint64_t k1[2] = {sym_u64("a0"), sym_u64("a1")}, k2[2] = {sym_u64("b0"), sym_u64("b1")};
        uint64_t c1[2] = {k1[0], k1[1]};
        bf.set(k1);
        sym_assert(bf.check(k1), "inserted hash pair reported absent");
        if (sym_choose(0, 1, "second")) bf.set(k2);
        sym_assert(bf.check(c1), "hash pair lost after another insertion");
        sym_assert(k1[0] == c1[0] && k1[1] == c1[1], "hash pair modified");
        sym_cover(1);
        return;
    }
    if (mode == 3) {            // one insertion into an empty filter sets at most one bit per hash function
        if (bits > 24) return;
        BloomFilter bf(bits, (uint8_t)nh);
        uint64_t k1[2] = {sym_u64("a0"), sym_u64("a1")};
        bf.set(k1);
        size_t ones = 0;
        for (size_t i = 0; i < bf.size(); ++i) ones += bf.getBitmap().get(i);
        sym_assert(ones >= 1 && ones <= nh, "one insertion sets more bits than hash functions");
        sym_cover(4);
        return;
    }
    BloomFilter bf(bits, (uint8_t)nh);
    size_t l1 = sym_choose(0, 9, "len1"), l2 = sym_choose(0, 2, "len2") * 4;
    uint8_t* k1 = new uint8_t[l1]; uint8_t* k2 = new uint8_t[l2];
    sym_bytes(k1, l1, "k1"); sym_bytes(k2, l2, "k2");
    if (mode == 1) {            // inserting never makes another key disappear
        sym_assert(!bf.check(k1, l1), "empty filter reports a key");
        bf.set(k1, l1);
        sym_assert(bf.check(k1, l1), "inserted key reported absent");
        bf.set(k2, l2);
        sym_assert(bf.check(k1, l1) && bf.check(k2, l2), "inserted key reported absent after another insertion");
        sym_cover(2);
    } else if (mode == 2) {     // export then reopen through a copy and through a move
        bf.set(k1, l1);
        size_t n = bf.size() / 8;
        uint8_t* img = (uint8_t*)malloc(n);
        bf.exportBitmap(img, n);
        sym_assert(memcmp(img, bf.getPtr(), n) == 0, "exported bitmap differs from the filter");
        BloomFilter cp(img, n, (uint8_t)nh);
        sym_assert(cp.size() == bf.size(), "size lost in export");
        sym_assert(cp.check(k1, l1), "key absent from a filter rebuilt from the exported bitmap");
        BloomFilter mv(0, (uint8_t)nh);
        mv.moveBitmapFrom(img, n);
        sym_assert(mv.size() == bf.size(), "size lost in move");
        sym_assert(mv.check(k1, l1), "key absent from a filter the bitmap was moved into");
        sym_cover(3);
    }
    delete[] k1; delete[] k2;
}
