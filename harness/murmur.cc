//@ src murmurhash3.cc
//@ run C02 quick args=0,1 time=40 cover=1,2 -- every key length 0..20 (x86_32), 0..36 (x64_128) at every alignment 0..7, all bytes and the seed symbolic
//@ run C02 thorough args=0,1 time=300 cover=1,2 -- as quick, lengths up to 48
//@ assume reference transcribed from the published MurmurHash3 (SMHasher) definition, little-endian host
#include "sym.h"
#include "murmurhash3.h"
#include <cstring>
typedef uint32_t u32; typedef uint64_t u64; typedef const uint8_t* P;
static u32 r32(u32 x, int r) { return (x << r) | (x >> (32 - r)); }
static u64 r64(u64 x, int r) { return (x << r) | (x >> (64 - r)); }
static u32 rd32(P p, size_t n) { u32 v = 0; for (size_t i = 0; i < n; ++i) v |= (u32)p[i] << (8 * i); return v; }
static u64 rd64(P p, size_t n) { u64 v = 0; for (size_t i = 0; i < n; ++i) v |= (u64)p[i] << (8 * i); return v; }
static u32 f32(u32 h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h; }
static u64 f64(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; }
static size_t lim(size_t n, size_t cap) { return n < cap ? n : cap; }
static u32 ref32(P p, size_t len, u32 seed) {
    u32 h = seed; size_t n = len / 4;
    for (size_t i = 0; i < n; ++i) { u32 k = rd32(p + 4 * i, 4); k *= 0xcc9e2d51; k = r32(k, 15); k *= 0x1b873593; h ^= k; h = r32(h, 13); h = h * 5 + 0xe6546b64; }
    if (len & 3) { u32 k = rd32(p + 4 * n, len & 3); k *= 0xcc9e2d51; k = r32(k, 15); k *= 0x1b873593; h ^= k; }
    h ^= (u32)len; return f32(h);
}
static void ref64(P p, size_t len, u32 seed, u64* o) {
    u64 h1 = seed, h2 = seed; const u64 c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full; size_t n = len / 16;
    for (size_t i = 0; i < n; ++i) {
        u64 k1 = rd64(p + 16 * i, 8), k2 = rd64(p + 16 * i + 8, 8);
        k1 *= c1; k1 = r64(k1, 31); k1 *= c2; h1 ^= k1; h1 = r64(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
        k2 *= c2; k2 = r64(k2, 33); k2 *= c1; h2 ^= k2; h2 = r64(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
    }
    P t = p + 16 * n; size_t m = len & 15;
    if (m > 8) { u64 k2 = rd64(t + 8, m - 8); k2 *= c2; k2 = r64(k2, 33); k2 *= c1; h2 ^= k2; }
    if (m > 0) { u64 k1 = rd64(t, lim(m, 8)); k1 *= c1; k1 = r64(k1, 31); k1 *= c2; h1 ^= k1; }
    h1 ^= len; h2 ^= len; h1 += h2; h2 += h1; h1 = f64(h1); h2 = f64(h2); h1 += h2; h2 += h1; o[0] = h1; o[1] = h2;
}
HARNESS {
    size_t mode = sym_arg();
    size_t max = sym_tier() ? 48 : (mode == 1 ? 36 : 20);
    size_t len = sym_choose(0, max, "len");
    size_t al = sym_choose(0, 7, "align");
    u32 seed = (u32)sym_range(0, 0xffffffffu, "seed");
    uint8_t* b = new uint8_t[al + len];
    sym_bytes(b + al, len, "key");
    if (mode == 0) {
        u32 o = 0; MurmurHash3_x86_32(b + al, (int)len, seed, &o);
        sym_assert(o == ref32(b + al, len, seed), "x86_32 hash differs from MurmurHash3");
        sym_observe(o); sym_cover(1);
    } else {
        u64 o[2], r[2]; MurmurHash3_x64_128(b + al, (int)len, seed, o); ref64(b + al, len, seed, r);
        sym_assert(o[0] == r[0] && o[1] == r[1], "x64_128 hash differs from MurmurHash3");
        sym_observe(o[0]); sym_cover(2);
    }
    delete[] b;
}
