//@ src internal_helper.cc fileops_posix.cc murmurhash3.cc
//@ models mfs
//@ run C13 quick args=0-9 time=60 cover=1 -- 0: hex decoding of every string of up to 4 bytes; 1-3: replace, tokenize and trim of every string of up to 4 (replace, tokenize) or 6 characters out of three, with patterns of 1 or 2; 4: every requested prime; 5: every choice out of up to 4 weights below 1000 by every random number; 6: printable form of every string of up to 3 bytes; 7: null handling of the comparison helpers, hash of every prefix length; 8: timers at every time within 4 ms around their limit (steps of 1/4 ms); 9: directory helpers on every combination of three files in two nested directories
//@ run C13 thorough args=0-9 time=300 cover=1 -- as quick, two more characters
#include "sym.h"
#include "mfs.h"
#include "internal_helper.h"
#include <cstring>
#include <string>
using namespace jungle;
extern "C" { extern int64_t jrt_clock_ns; extern int (*jrt_rand_fn)(); }
static std::string str(size_t maxLen, const char* nm) {
    size_t n = sym_choose(0, maxLen, nm);
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) s[i] = (char)sym_choose('a', 'c', nm);
    return s;
}
static uint64_t gRand;
static int rnd() { return (int)gRand; }
HARNESS {
    int more = sym_tier() ? 2 : 0;
    switch (sym_arg()) {
    case 0: {
        size_t n = sym_choose(0, 4 + more, "len"); char b[8]; sym_bytes(b, n, "hex");
        std::string s(b, n);
        SizedBuf r = HexDump::hexStr2bin(s);
        bool ok = n && n % 2 == 0; unsigned char v[4];
        for (size_t i = 0; i < n; ++i) {
            char c = b[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) { ok = false; break; }
            v[i / 2] = i % 2 ? v[i / 2] * 16 + d : d;
        }
        if (!ok) sym_assert(r.empty(), "a malformed hex string is accepted");
        else { sym_assert(r.size == n / 2 && !memcmp(r.data, v, n / 2), "hex string decoded wrongly"); sym_cover(1); }
        r.free();
        sym_assert(true, "");
        break; }
    case 1: {
        std::string s = str(4 + more, "src"), b = str(2, "before"), a = str(2, "after");
        sym_assume(!b.empty());
        std::string r = StrHelper::replace(s, b, a), w;
        for (size_t i = 0; i < s.size();) if (!s.compare(i, b.size(), b)) { w += a; i += b.size(); } else w += s[i++];
        sym_assert(r == w, "replace"); sym_cover(1);
        break; }
    case 2: {
        std::string s = str(4 + more, "src"), d = str(2, "delim");
        sym_assume(!d.empty());
        std::vector<std::string> r = StrHelper::tokenize(s, d), w; std::string cur;
        for (size_t i = 0; i < s.size();) if (!s.compare(i, d.size(), d)) { w.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++];
        if (!cur.empty()) w.push_back(cur);
        sym_assert(r == w, "tokenize"); sym_cover(1);
        break; }
    case 3: {
        std::string s = str(6 + more, "src"); std::string ws = sym_choose(0, 1, "ws") ? "ab" : "a";
        std::string r = StrHelper::trim(s, ws);
        size_t i = 0, j = s.size();
        while (i < j && ws.find(s[i]) != std::string::npos) i++;
        while (j > i && ws.find(s[j - 1]) != std::string::npos) j--;
        sym_assert(r == s.substr(i, j - i), "trim"); sym_cover(1);
        break; }
    case 4: {
        uint64_t v = sym_u64("value");
        uint64_t r = sym_concretize(PrimeNumber::getUpper(v));
        sym_assert(r >= 2 && r <= 997, "prime out of range");
        for (uint64_t d = 2; d * d <= r; ++d) sym_assert(r % d, "not a prime");
        if (r < 997) sym_assert(r >= v, "prime below the value");
        uint64_t p = r - 1;     // the next smaller prime is below the value
        for (; p >= 2; --p) { bool pr = true; for (uint64_t d = 2; d * d <= p; ++d) if (p % d == 0) pr = false; if (pr) break; }
        if (p >= 2) sym_assert(v > p, "not the smallest prime");
        sym_cover(1);
        break; }
    case 5: {
        std::vector<size_t> w; size_t n = sym_choose(1, 4, "n"); uint64_t sum = 0;
        for (size_t i = 0; i < n; ++i) { w.push_back(sym_range(0, 1000, "weight")); sum += w[i]; }
        sym_assume(sum > 0);
        gRand = sym_range(0, 0x7fffffff, "rand"); jrt_rand_fn = rnd;
        size_t k = RndGen::fromProbDist(w);
        sym_assert(k < n, "choice out of range"); sym_assert(w[k] > 0, "an entry with weight zero is chosen"); sym_cover(1);
        break; }
    case 6: {
        size_t n = sym_choose(0, 3, "len"), lim = sym_choose(0, 4, "limit"); char b[4]; sym_bytes(b, n, "str");
        std::string r = HexDump::rStr(std::string(b, n), lim), w;
        size_t m = n < lim ? n : lim;
        sym_assert(r.size() == m + 4 && !r.compare(m, 4, std::string(" (") + char('0' + n) + ")"), "length part");
        for (size_t i = 0; i < m; ++i) sym_assert(r[i] == ((b[i] >= 0x20 && b[i] <= 0x7d) ? b[i] : '.'), "character part");
        sym_cover(1);
        break; }
    case 7: {
        unsigned char k[6]; sym_bytes(k, 6, "key");
        size_t n = sym_choose(0, 6, "len"), want = sym_choose(0, 8, "hashed");
        DBConfig c; HashKeyLenParams seen; int calls = 0;
        if (want < 8) c.customLenForHash = [&](const HashKeyLenParams& p) -> size_t { seen = p; calls++; return want; };
        SizedBuf key(n, k); bool used = false; bool part = sym_choose(0, 1, "partial");
        uint64_t h[2] = {1, 2}, h2[2];
        bool u = get_hash_pair(&c, key, part, h);
        bool cust = want && want < 8 && want <= n;
        MurmurHash3_x64_128(k, cust ? want : n, 0, h2);
        sym_assert(u == cust, "custom hash length reported wrongly");
        sym_assert(h[0] == h2[0] && h[1] == h2[1], "hash of the wrong bytes");
        if (want < 8) sym_assert(calls == 1 && seen.isPartialKey == part && seen.key.size == n && seen.key.data == k, "parameters of the custom length function");
        uint32_t h32; MurmurHash3_x86_32(k, n, 0, &h32);
        sym_assert(get_murmur_hash_32(key) == h32, "32-bit hash"); sym_assert(get_murmur_hash(key, 7) == h32 % 7, "bounded hash"); 
        MurmurHash3_x64_128(k, n, 0, h2); sym_assert(get_murmur_hash_64(key) == h2[0], "64-bit hash");
        sym_cover(1);
        break; }
    case 8: {
        int64_t t0 = jrt_clock_ns; size_t lim = sym_choose(1, 3, "ms");
        Timer t(lim);
        int q = (int)sym_choose(0, 4 * lim + 4, "quarter ms");
        jrt_clock_ns += q * 250000LL;
        bool late = q >= (int)(4 * lim);     // reading the clock takes time: strictly later then
        sym_assert(t.timeout() == late, "timeout()");
        uint64_t us = t.getUs(), ms = t.getMs();
        sym_assert(us >= q * 250u && us <= q * 250u + 20, "getUs()"); sym_assert(ms == q / 4u, "getMs()");
        sym_assert(t.timeoutAndReset() == late, "timeoutAndReset()");
        if (late) { sym_assert(!t.timeout() && t.getMs() == 0, "reset"); sym_cover(1); }
        else { t.setDurationMs(0); t.reset(); sym_assert(t.timeout(), "no duration"); }
        VerboseLog vl(lim); int sup = 77;
        int k = (int)sym_choose(0, 3, "suppressed");
        for (int i = 0; i < k; ++i) sym_assert(!vl.checkPrint(sup), "printed too early");
        jrt_clock_ns += (lim + 1) * 1000000;
        sym_assert(vl.checkPrint(sup) && sup == k, "suppressed messages miscounted");
        sym_assert(!vl.checkPrint(sup), "printed twice");
        (void)t0;
        break; }
    case 9: {   // directories, one nested in the other; some of the files exist
        mfs_reset(); sym_assert(FileMgr::mkdir("/a") == 0 && FileMgr::mkdir("/a/b") == 0 && FileMgr::mkdir("/a") != 0, "mkdir");
        const char* nm[] = {"/a/x", "/a/b/y", "/a/b/z"}; size_t sz[3]; bool ex[3]; uint64_t top = 0, all = 0;
        for (int i = 0; i < 3; ++i) {
            ex[i] = sym_choose(0, 1, "exists"); sz[i] = ex[i] ? sym_choose(0, 3, "size") : 0; char z[4] = {};
            if (ex[i]) mfs_put(nm[i], z, sz[i]);
            all += sz[i]; if (!i) top = sz[i];
            sym_assert(FileMgr::exist(nm[i]) == ex[i] && FileMgr::fileSize(nm[i]) == sz[i], "existence or size of a file");
            sym_assert(FileMgr::filePart(nm[i]) == std::string(nm[i] + strlen(nm[i]) - 1), "file part of a path");
        }
        sym_assert(FileMgr::filePart("x") == "x" && FileMgr::filePart("d/") == "", "file part of a path");
        sym_assert(FileMgr::dirSize("/a", true) == all && FileMgr::dirSize("/a", false) == top && FileMgr::dirSize("/none", true) == 0, "size of a directory");
        std::vector<std::string> f; FileMgr::scan("/a/b", f); int seen = 0;
        for (auto& e : f) { if (e == "." || e == "..") continue; sym_assert((e == "y" && ex[1]) || (e == "z" && ex[2]), "scan reports something else"); seen++; }
        sym_assert(seen == ex[1] + ex[2], "scan misses a file");
        int k = (int)sym_choose(0, 2, "victim");
        sym_assert(FileMgr::remove(nm[k]) == 0, "remove");
        for (int i = 0; i < 3; ++i) sym_assert(FileMgr::exist(nm[i]) == (ex[i] && i != k), "remove removes another file or none");
        int calls = 0; { GcFunc g([&] { calls++; }); if (sym_choose(0, 1, "now")) { g.gcNow(); sym_assert(calls == 1, "clean-up not done at once"); } }
        sym_assert(calls == 1, "clean-up not done exactly once");
        sym_cover(1);
        break; }
    }
}
