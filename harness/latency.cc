//@ threads
//@ run C15 quick args=0-5 time=100 cover=1 -- 0: two 64-bit values, the first of every length in bits and the second of 0, 1, 32, 63 or 64, other bits all set or 8 of them symbolic, in one histogram or spread over two that are merged: bins, sum, total, average, maximum; 1: estimates of six percentiles for every multiset of three values out of eight between 0 and 2^64-1; 2: two threads adding a value each to a collector under the same or different names, new or known, all interleavings with at most 1 preemption; 3: stacks of up to three names with lengths around the size of the buffer (4096) and its doubles; 4: nested timed scopes of every duration up to 3 ms
//@ run C15 thorough args=0-5 time=400 cover=1 -- as quick, three values (0), four (1), 2 preemptions (2)
//@ assume interleavings are sequentially consistent
#include "sym.h"
#include "latency_collector.h"
#include <string>
extern "C" { extern int64_t jrt_clock_ns; }
static LatencyCollector* lc; static std::string nm[2]; static uint64_t val[2];
static void worker(void* p) { int t = (int)(intptr_t)p; lc->addLatency(nm[t], val[t]); }
static uint64_t lo(uint64_t v) { return v; }
HARNESS {
    bool more = sym_tier();
    switch (sym_arg()) {
    case 0: {
        int n = more ? 3 : 2; uint64_t v[3], sum = 0, mx = 0; bool two = sym_choose(0, 1, "merged");
        Histogram a, b;
        for (int i = 0; i < n; ++i) { { uint64_t r = sym_choose(0, 1, "ones") ? ~0ull : sym_range(0, 255, "value"); static const int bl[] = {0, 1, 32, 63, 64}; int k = i ? bl[sym_choose(0, 4, "bits")] : (int)sym_choose(0, 64, "bits"); v[i] = k > 1 ? (1ull << (k - 1)) | (r & ((1ull << (k - 1)) - 1)) : k; } (two && i ? b : a).add(v[i]); sum += v[i]; if (v[i] > mx) mx = v[i]; }
        Histogram c = a + b, d(c); a += b;
        for (Histogram* h : {&a, &c, &d}) {
            sym_assert(h->getTotal() == (uint64_t)n && h->getSum() == sum && h->getAverage() == sum / n && h->getMax() == mx, "total, sum, average or maximum");
            uint64_t cnt = 0; int steps = 0;
            for (HistItr it = h->begin(); it != h->end(); ++it) {
                sym_assert(++steps <= 65, "endless iteration");
                uint64_t want = 0, l = it.getLowerBound(), u = it.getUpperBound();
                for (int i = 0; i < n; ++i) want += v[i] >= l && (v[i] < u || u == ~0ull);
                sym_assert(it.getCount() == want, "a value is counted in another bin"); cnt += want;
            }
            sym_assert(cnt == (uint64_t)n, "a value is in no bin or in two");
            if (h == &a) h = &a;
        }
        sym_cover(1); break; }
    case 1: {
        static const uint64_t pool[] = {0, 1, 2, 3, 1000, 1ull << 32, 1ull << 63, ~0ull};
        int n = more ? 4 : 3; uint64_t v[4]; int last = 0; Histogram h;
        for (int i = 0; i < n; ++i) { last = (int)sym_choose(last, 7, "value"); v[i] = pool[last]; h.add(v[i]); }   // ascending
        static const double ps[] = {1, 25, 50, 66, 90, 99.9};
        uint64_t before = 0;
        for (double p : ps) {
            uint64_t e = h.estimate(p), th = (uint64_t)(n * (100 - p) / 100.0);
            sym_assert(e <= v[n - 1], "an estimate above the maximum");
            sym_assert(e >= before, "estimates are not monotonic"); before = e;
            if (!th) sym_assert(e == v[n - 1], "not the maximum although nothing is above"); 
            else { uint64_t x = v[n - th]; sym_assert(e <= 2 * (x < (1ull << 63) ? x : x / 2) + 1 || x >= (1ull << 63), "an estimate in a higher bin"); sym_assert(e >= x / 2, "an estimate in a lower bin"); }
        }
        sym_assert(h.estimate(0) == 0 && h.estimate(100) == 0 && h.find(0) == h.end() && h.find(100) == h.end(), "percentiles out of range");
        sym_cover(1); (void)lo; break; }
    case 2: {
        LatencyCollector c; lc = &c;
        bool same = sym_choose(0, 1, "same"), known = sym_choose(0, 1, "known");
        nm[0] = "f"; nm[1] = same ? "f" : "g"; val[0] = sym_range(2, 999, "value"); val[1] = 1000;
        if (known) c.addStatName("f");
        sym_preempt_budget(more ? 2 : 1);
        int id = sym_thread_create(worker, (void*)1); worker((void*)0); sym_thread_join(id);
        sym_preempt_budget(0);
        if (!same) c.addLatency("g", 1);
        uint64_t per = same ? 2 : 1;
        sym_assert(c.getNumCalls("f") == per && c.getNumCalls("g") == (same ? 0 : 2), "a value is lost or counted twice");
        sym_assert(c.getTotalTime("f") == (same ? val[0] + val[1] : val[0]), "total time");
        sym_assert(c.getNumItems() == (same ? 1u : 2u), "number of items");
        if (!same) sym_assert(c.getMaxLatency("g") == val[1] && c.getAvgLatency("g") == (val[1] + 1) / 2, "maximum or average");
        sym_cover(1); break; }
    case 3: {
        ThreadTrackerItem t; static const size_t L[] = {0, 1, 2042, 2044, 4080, 4087, 4088, 4091, 4092, 4093, 8184, 8188};
        std::string want[4]; int n = 3;
        for (int i = 0; i < n; ++i) { size_t l = L[sym_choose(0, i < 2 ? 11 : 3, "length")]; want[i + 1] = want[i] + " ## " + std::string(l, (char)('a' + i)); t.pushStackName(std::string(l, (char)('a' + i))); sym_assert(t.getAggrStackName() == want[i + 1], "name of a stack"); }
        LatencyItem it(want[3]); sym_assert(it.getNumStacks() == 3, "depth of a stack"); sym_assert(it.getActualFunction() == want[3].substr(want[2].size() + 4), "function on top of a stack");
        for (int i = n; i > 0; --i) { sym_assert(t.getAggrStackName() == want[i], "name of a stack after popping"); sym_assert(t.popLastStack() == (size_t)i - 1, "depth after popping"); }
        sym_assert(t.getAggrStackName() == "", "name of an empty stack");
        sym_cover(1); break; }
    case 4: {
        LatencyCollector c; uint64_t a = sym_choose(0, 3, "ms"), b = sym_choose(0, 3, "ms"), k = sym_choose(1, 2, "calls");
        { LatencyCollectWrapper w(&c, "out"); jrt_clock_ns += a * 1000000; for (uint64_t i = 0; i < k; ++i) { LatencyCollectWrapper x(&c, "in"); jrt_clock_ns += b * 1000000; } }
        { LatencyCollectWrapper x(&c, "in"); jrt_clock_ns += b * 1000000; }
        { LatencyCollectWrapper x(nullptr, "none"); }
        sym_assert(c.getNumCalls(" ## out") == 1 && c.getNumCalls(" ## out ## in") == k && c.getNumCalls(" ## in") == 1 && c.getNumItems() == 3, "scopes counted wrongly");
        uint64_t o = c.getTotalTime(" ## out"), i = c.getTotalTime(" ## out ## in");
        sym_assert(i / 1000 == k * b && o / 1000 == a + k * b && i % 1000 < 30 && o % 1000 < 30, "duration of a scope");
        LatencyItem g = c.getAggrItem("in"); sym_assert(g.getNumCalls() == k + 1 && g.getTotalTime() / 1000 == (k + 1) * b, "aggregate of a function"); sym_assert(c.getAggrItem("x").getNumCalls() == 0, "aggregate of an unknown function");
        sym_cover(1); break; }
    default: {
        HistItr e; Histogram h; h.add(sym_u64("value")); int n = 0;
        for (auto& x : h) { n += (int)x.getCount(); }
        sym_assert(n == 1, "range loop over the bins"); 
        LatencyItem x("n"), y("n"); x.addLatency(3); y.addLatency(5); LatencyItem z = x + y; x += y;
        sym_assert(z.getTotalTime() == 8 && x.getTotalTime() == 8 && x.getNumCalls() == 2 && z.getMaxLatency() == 5 && z.getName() == "n", "sum of two items");
        auto m = z.dumpHistogram(); uint64_t s = 0; for (auto& p : m) s += p.second; sym_assert(s == 2, "dumped histogram");
        sym_cover(1); break; }
    }
}
