//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C14 quick args=0-5 time=100 cover=1,2 -- a database whose tables in levels 0 and 1 have lookup boosters of 1 or 2 slots (all keys of one hash in args 4-5); 2 fixed keys (3 in args 2-3), every program of 5 (4) operations out of {write and flush a key, remove and flush a key, read a key (filling the booster), nearest search, compact L0}, then everything is read twice
//@ run C14 thorough args=0-5 time=800 cover=1,2 -- as quick with one more operation
#include "dbx.h"
#include "table_mgr.h"
#include "table_manifest.h"
#include "table_file.h"
#include "table_lookup_booster.h"
static World w; static size_t gSlots;
static bool attach() {
    bool any = false;
    auto* tm = w.db->p->tableMgr;
    for (size_t lv = 0; lv < 2; ++lv) {
        std::list<TableInfo*> ts;
        if (!tm->mani->getTablesRange(lv, SizedBuf(), SizedBuf(), ts).ok()) continue;
        for (auto* t : ts) {
            if (t->file && !t->file->tlbByKey) { t->file->tlbByKey = new TableLookupBooster(gSlots, tm, t->file); any = true; }
            t->done();
        }
    }
    return any;
}
HARNESS {
    uint64_t a = sym_arg();
    gSlots = (a & 1) + 1;
    if (a / 2 == 1) w.fixKeys({"a", "b", "c"}); else w.fixKeys({"a", "b"});
    if (a / 2 == 2) w.c.customLenForHash = [](const HashKeyLenParams& p) -> size_t { return p.key.size; };
    if (a >= 4) { w.fixKeys({"pa", "pb"}); w.c.customLenForHash = [](const HashKeyLenParams&) -> size_t { return 1; }; }
    w.start(); attach();
    int n = (a / 2 == 1 ? 4 : 5) + sym_tier();
    for (int i = 0; i < n; ++i) {
        int op = (int)sym_choose(0, 3 * w.nk, "op");
        if (op < w.nk) { w.set(op); w.flush(); }
        else if (op < 2 * w.nk) { w.del(op - w.nk); w.flush(); }
        else if (op < 3 * w.nk) {
            int k = op - 2 * w.nk; w.checkGet(w.db, k, ~0ull, "get differs");
            Record r; Status s = w.db->getNearestRecordByKey(w.key(k), r, SearchOptions(SearchOptions::GREATER_OR_EQUAL));
            if (w.live(k, ~0ull)) { sym_assert(s.ok() && w.recIs(r, k, ~0ull), "nearest search differs"); sym_cover(1); }
            r.free();
        } else w.compactL0();
        if (attach() && i) sym_cover(2);
    }
    w.checkAll("get differs"); w.checkAll("second get differs");
    w.checkIter(w.db, ~0ull, false, "iteration differs");
    w.stop();
}
