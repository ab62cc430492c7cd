//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C16 quick args=0-7 time=60 cover=1,2 -- every database of 3 keys, each written, overwritten or removed in each of two phases (first in the tables if arg%2, else in the log; second in the log), then sampling 0 to 4 keys (args 2,3,6,7: live keys only) from the database or from a snapshot taken between the phases (args 4-7)
//@ run C16 thorough args=0-7 time=400 cover=1,2 -- as quick, 4 keys
#include "dbx.h"
HARNESS {
    World w; uint64_t a = sym_arg();
    if (sym_tier()) w.fixKeys({"a", "b", "c", "d"}); else w.fixKeys({"a", "b", "c"});
    w.start();
    uint64_t n = sym_choose(0, 4, "samples"); bool liveOnly = a & 2, snap = a & 4;
    std::list<SizedBuf> out;
    if (!snap) { Status s = w.db->getSampleKeys(SamplingParams(n, liveOnly), out); sym_assert(n ? s.ok() : s == Status::INVALID_PARAMETERS, "sampling an empty database"); sym_assert(out.empty(), "sample of an empty database"); }
    w.phase("first");
    if (a & 1) { w.flush(); w.compactL0(); } else w.sync();
    DB* d = w.db; uint64_t S = ~0ull;
    if (snap) { S = w.seq; sym_assert(w.db->openSnapshot(&d).ok(), "openSnapshot"); }
    w.phase("second", 0, snap ? 2 : 3);
    uint64_t heap = sym_live_heap();
    Status s = d->getSampleKeys(SamplingParams(n, liveOnly), out);
    if (!n) { sym_assert(s == Status::INVALID_PARAMETERS, "sampling zero keys"); }
    else {
        sym_assert(s.ok(), "sampling fails");
        sym_assert(out.size() <= n, "more samples than asked for");
        std::set<std::string> seen; bool anyLive = false;
        for (int i = 0; i < w.nk; ++i) if (w.live(i, S)) anyLive = true;
        for (auto& k : out) {
            sym_assert(seen.insert(std::string((char*)k.data, k.size)).second, "a key is sampled twice");
            int got = -1;
            for (int i = 0; i < w.nk; ++i) if (k.size == w.kl[i] && !memcmp(k.data, w.kb[i], k.size)) got = i;
            sym_assert(got >= 0, "a sampled key never existed");
            sym_assert(liveOnly ? w.live(got, S) : w.last(got, S) != nullptr, liveOnly ? "a sampled key is not live" : "a sampled key did not exist yet");
            sym_cover(1);
        }
        if (out.size() > 1) sym_cover(2);
        bool any = false; for (int i = 0; i < w.nk; ++i) if (w.last(i, S)) any = true;
        if (!liveOnly && any) sym_assert(!out.empty(), "no sample of a database with records");
    }
    for (auto& k : out) k.free();
    out.clear();
    (void)heap;
    if (snap) sym_assert(DB::close(d).ok(), "closing the snapshot failed");
    w.stop();
}
