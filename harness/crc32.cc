//@ src crc32.cc
//@ run C01 quick args=0,1,2,3,4 time=40 cover=1,2,3,4,5 -- buffers of every length 0..24 (bytes and previous value symbolic); bursts of every width 1..32 bits at every position of a 16-byte buffer
//@ run C01 thorough args=0,1,2,3,4 time=300 cover=1,2,3,4,5 -- as quick with lengths up to 48 and 32-byte buffers for bursts
//@ assume the CRC definition of reference: reflected polynomial 0xEDB88320, initial and final inversion
#include "sym.h"
#include "crc32.h"
#include <cstring>
static uint32_t ref(const uint8_t* p, size_t n, uint32_t prev) {
    uint32_t c = ~prev;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
    }
    return ~c;
}
HARNESS {
    const size_t MAXN = sym_tier() ? 48 : 24;
    uint8_t buf[64];
    size_t mode = sym_arg();
    uint32_t prev = (uint32_t)sym_range(0, 0xffffffffu, "prev");
    if (mode == 0) {            // crc32_8 == definition
        size_t n = sym_choose(0, MAXN, "n");
        size_t off = sym_choose(0, 7, "align");
        uint8_t* p = new uint8_t[off + n];      // exact size: any over-read is out of bounds
        sym_bytes(p + off, n, "b");
        uint32_t r = crc32_8(p + off, n, prev);
        sym_assert(r == ref(p + off, n, prev), "crc32_8 differs from CRC-32");
        sym_observe(r);
        delete[] p;
        sym_cover(1);
    } else if (mode == 1) {     // crc32_1
        size_t n = sym_choose(0, MAXN, "n");
        uint8_t* p = new uint8_t[n];
        sym_bytes(p, n, "b");
        uint32_t r = crc32_1(p, n, prev);
        sym_assert(r == ref(p, n, prev), "crc32_1 differs from CRC-32");
        sym_observe(r);
        delete[] p;
        sym_cover(2);
    } else if (mode == 2) {     // chaining over any split
        size_t n = sym_choose(0, MAXN, "n");
        size_t k = sym_choose(0, n, "split");
        sym_bytes(buf, n, "b");
        uint32_t whole = crc32_8(buf, n, prev);
        uint32_t parts = crc32_8(buf + k, n - k, crc32_8(buf, k, prev));
        sym_assert(whole == parts, "CRC of concatenation differs from chained CRC");
        sym_observe(whole);
        sym_cover(3);
    } else if (mode == 3) {     // last8
        size_t n = sym_choose(0, MAXN, "n");
        sym_bytes(buf, n, "b");
        size_t k = n < 8 ? n : 8;
        sym_assert(crc32_8_last8(buf, n, prev) == ref(buf + n - k, k, prev), "crc32_8_last8 is not the CRC of the last 8 bytes");
        sym_cover(4);
    } else {                    // every burst error of at most 32 bits is detected
        const size_t N = sym_tier() ? 32 : 16;
        uint8_t b2[32];
        sym_bytes(buf, N, "b");
        memcpy(b2, buf, N);
        size_t pos = sym_choose(0, N * 8 - 1, "burst_start");
        uint32_t pat = (uint32_t)sym_range(0, 0xffffffffu, "pattern");
        sym_assume(pat & 1);
        for (size_t i = 0; i < 32 && pos + i < N * 8; ++i) {
            size_t bit = pos + i;
            b2[bit / 8] ^= (uint8_t)(((pat >> i) & 1) << (bit % 8));
        }
        sym_assert(crc32_8(buf, N, 0) != crc32_8(b2, N, 0), "a burst of at most 32 flipped bits is not detected");
        sym_cover(5);
    }
}
