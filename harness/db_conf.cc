//@ src ALL
//@ models mfs fdb_model
//@ flags -fno-access-control
//@ run C17 quick args=0-2 time=60 cover=1 -- 0: table size limit of levels 0 to 5 with four sizes of level 1, any size of level 0 and up to two ratios out of four; 1: writers of a job for any explicit number, read-only, and otherwise 0 to 4 flushers, 0 to 4 compactors and any number of writers below 65536; 2: idle detection at every hour for every pair of start and end hours out of nine, traffic of the last six ten-second slots idle, busy or unknown, windows of 10 to 50 s
//@ run C17 thorough args=0-2 time=300 cover=1 -- as quick
#include "dbx.h"
extern "C" { void inline_threads_reset() {} }
HARNESS {
    switch (sym_arg()) {
    case 0: {
        DBConfig c; static const uint64_t sz[] = {1, 1000, 2684354560ull, 1ull << 40}; static const int r2[] = {2, 5, 8, 20};
        c.maxL0TableSize = sym_u64("level 0"); c.maxL1TableSize = sz[sym_choose(0, 3, "level 1")];
        c.tableSizeRatio.clear(); std::vector<int> r; size_t n = sym_choose(0, 2, "ratios");
        for (size_t i = 0; i < n; ++i) { r.push_back(r2[sym_choose(0, 3, "ratio")]); c.tableSizeRatio.push_back(r.back() / 2.0); }
        sym_assert(c.getMaxTableSize(0) == c.maxL0TableSize, "limit of level 0");
        uint64_t want = c.maxL1TableSize;
        for (size_t l = 1; l < 6; ++l) {
            sym_assert(c.getMaxTableSize(l) == want, "limit of a level");
            int q = l - 1 < n ? r[l - 1] : n ? r[n - 1] : 20;
            want = want * q / 2;
        }
        sym_cover(1); break; }
    case 1: {
        World w; w.boot(); GlobalConfig* g = DBMgr::getWithoutInit()->getGlobalConfig(); DBConfig c;
        switch (sym_choose(0, 2, "kind")) {
        case 0: c.maxParallelWritesPerJob = (uint32_t)sym_range(1, 0xffffffff, "given"); c.readOnly = sym_choose(0, 1, "ro"); sym_assert(c.getMaxParallelWriters() == c.maxParallelWritesPerJob, "the given number is not used"); break;
        case 1: c.readOnly = true; g->numTableWriters = sym_range(0, 65535, "writers"); g->numFlusherThreads = 1; sym_assert(c.getMaxParallelWriters() == 1, "writers of a read-only database"); break;
        default: {
            size_t f = sym_choose(0, 4, "flushers"), k = sym_choose(0, 4, "compactors"), wr = sym_range(0, 65535, "table writers"), t = f + k;
            g->numFlusherThreads = f; g->numCompactorThreads = k; g->numTableWriters = wr;
            size_t r = c.getMaxParallelWriters();
            sym_assert(r >= 1, "no writer at all");
            if (!t || !wr) sym_assert(r == 1, "writers although there are none");
            else { sym_assert(r >= 2, "table writers never used"); sym_assert(r * t >= wr && r * t <= wr + 2 * t, "writers not divided among the jobs"); }
            break; }
        }
        g->numFlusherThreads = g->numCompactorThreads = g->numTableWriters = 0;
        sym_assert(jungle::shutdown().ok(), "shutdown"); sym_cover(1); break; }
    default: {
        World w; w.boot(); DBMgr* m = DBMgr::getWithoutInit(); auto& o = m->getGlobalConfig()->itcOpt;
        static const uint32_t hs[] = {0, 1, 4, 7, 12, 18, 22, 23, 24};
        o.startHour = hs[sym_choose(0, 7, "start")]; o.endHour = hs[sym_choose(0, 8, "end")]; int hour = (int)sym_range(0, 23, "hour"); SimpleLoggerMgr::jsymHour() = hour;
        o.timeWindow_sec = (uint32_t)sym_choose(0, 5, "window") * 10; o.iopsThreshold = 10;
        uint64_t now = m->getGlobalTime() / 10 % DBMgr::MAX_OP_HISTORY; int pat = (int)sym_choose(0, 12, "busy slot"), known = 0; bool busy = false;
        // slots now, now-1, ..: all quiet (0), one busy (1..6), known only up to a slot (7..12)
        int need = o.timeWindow_sec > 30 ? (int)o.timeWindow_sec / 10 : 3;
        for (int i = 0; i < 6; ++i) {
            int64_t v = pat - 1 == i ? 10 * 10 + 10 : (int64_t)sym_range(0, 100, "ops");
            if (pat >= 7 && i >= pat - 7) v = -1;
            else { if (i < need) { known++; if (pat - 1 == i) busy = true; } }
            *m->opHistory[(now + DBMgr::MAX_OP_HISTORY - i) % DBMgr::MAX_OP_HISTORY] = v;
        }
        uint32_t s = o.startHour, e = o.endHour, h = hour;
        bool in = s == e || (s < e ? h >= s && h < e : h >= s || h < e);
        bool idle = m->determineIdleStatus();
        if (!o.timeWindow_sec) sym_assert(!idle, "idle although idle compaction is off");
        else if (!in) sym_assert(!idle, "idle outside of the hours given");
        else if (busy) sym_assert(!idle, "idle although a recent slot was busy");
        else if (known >= 3) sym_assert(idle, "not idle within the hours given without traffic");
        else sym_assert(!idle, "idle without enough history");
        sym_assert(jungle::shutdown().ok(), "shutdown"); sym_cover(1); break; }
    }
}
