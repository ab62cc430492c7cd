// What a database must be after a crash: the state after some part of the history `w.h`
// that includes the first `solid` entries, consistent in every kind of read, and writable.
#pragma once
#include "dbx.h"
static void recovered(World& w, size_t solid) {
    // What is there now is the state after some part of the history.
    size_t p = w.h.size();
    std::vector<Ent> all = w.h;
    for (;; --p) {
        w.h.assign(all.begin(), all.begin() + p);
        bool same = true;
        for (int k = 0; k < w.nk && same; ++k) {
            const Ent* e = w.last(k);
            SizedBuf out; Status g = w.db->get(w.key(k), out);
            if (!e || e->del) same = g == Status::KEY_NOT_FOUND;
            else same = g.ok() && out.size == 1 && *(uint8_t*)out.data == e->val;
            out.free();
        }
        if (same) break;
        sym_assert(p > solid, "the state after recovery is not that of a prefix of the history containing everything synced");
    }
    w.checkIter(w.db, ~0ull, true, "iteration after recovery differs from the recovered state");
    // Life goes on.
    uint64_t mx = 0; w.db->getMaxSeqNum(mx);
    w.seq = mx == NOT_INITIALIZED ? 0 : mx;
    w.set(1); w.set(0); w.del(1);
    w.reopen();
    w.checkAll("write after recovery lost by a reopen");
    w.flush(); w.compactL0();
    w.checkAll("write after recovery lost by a flush");
    w.checkIter(w.db, ~0ull, false, "iteration after recovery, further writes and a flush");
    w.stop();
}
