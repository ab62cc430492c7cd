//@ src ALL
//@ models mfs inline_threads fdb_model
//@ flags -fno-access-control
//@ run C38 quick args=0-6 time=150 cover=1 -- a group with its default database and two further ones, names of 1 to 2 symbolic characters (arg 0) or with one of 254 to 257 characters (1), the names also opened with a different configuration (2): every program of 2 operations out of {write, remove, sync, flush logs to tables in one of the databases (opening it first), close and reopen one or everything}; in args 3-5 the process dying (3), the power failing (4, 6, by the first operation) or one call failing or transferring less (5) at any file-system operation
//@ run C38 thorough args=0-6 time=600 cover=1 -- as quick, one more operation, names of up to 3 characters
#include "dbx.h"
enum { ND = 3 };
static DBGroup* grp; static DB* db[ND]; static std::string nm[ND]; static std::string path = "/g";
static std::vector<int> hist[ND];     // values written so far, 0: removed
static size_t solid[ND];
HARNESS {
    World w;
    unsigned a = sym_arg();
    bool late = a == 6; if (late) a = 4;
    bool crash = a == 3 || a == 4, power = a == 4, fault = a == 5;
    for (int i = 1; i < ND; ++i) {
        size_t n = a == 1 && i == 1 ? sym_choose(254, 257, "length") : a == 0 ? sym_choose(1, sym_tier() ? 3 : 2, "length") : 2;
        char b[300]; memset(b, 'n', sizeof b);
        if (a) b[0] = '0' + i;
        else { sym_bytes(b, n, "name"); for (size_t k = 0; k < n; ++k) sym_assume(b[k] != 0); }
        nm[i] = std::string(b, n);
        if (i == 2 && !a) sym_assume(nm[1].size() != nm[2].size() || memcmp(nm[1].data(), nm[2].data(), nm[1].size()));
    }
    for (int i = 0; i < ND; ++i) { db[i] = nullptr; hist[i].assign(1, 0); solid[i] = 1; }
    w.c.maxEntriesInLogFile = 2;
    mfs_reset(); fdb_model_reset(); w.boot();
    auto dead = [&]() { return crash && mfs_crashed(); };
    bool hit = false;            // a call failed: what follows may fail as well, until everything is opened again
    auto ok = [&](Status s, const char* m) { if (fault && mfs_faults_hit()) hit = true; if (!dead() && !hit) sym_assert(s.ok(), m); return s.ok(); };
    auto openG = [&]() { grp = nullptr; return ok(DBGroup::open(&grp, path, w.c), "the group does not open") && grp; };
    auto openD = [&](int i) -> bool {
        if (db[i]) return true;
        if (!grp) return false;
        if (!i) { return ok(grp->openDefaultDB(&db[0]), "the default database does not open") && db[0]; }
        DBConfig c2 = w.c; c2.maxEntriesInLogFile = 5;
        DB* d = nullptr; bool r = ok(a == 2 ? grp->openDB(&d, nm[i], c2) : grp->openDB(&d, nm[i]), "a database of the group does not open");
        if (r) db[i] = d;
        return r && d;
    };
    auto closeAll = [&]() {
        for (int i = ND - 1; i > 0; --i) if (db[i]) { ok(DB::close(db[i]), "close"); }
        for (int i = 0; i < ND; ++i) db[i] = nullptr;
        if (grp) ok(DBGroup::close(grp), "close of the group");
        grp = nullptr;
    };
    auto write = [&](int i, bool del) {
        if (!openD(i)) return;
        std::string k = "k"; uint8_t v = (uint8_t)(1 + i * 60 + hist[i].size());
        Status s = del ? db[i]->del(SizedBuf(k)) : db[i]->set(KV(SizedBuf(k), SizedBuf(1, &v)));
        if (ok(s, "a write is refused") || dead() || hit) hist[i].push_back(del ? 0 : v);
    };
    auto read = [&](int i, bool exact, const char* m) {
        if (!openD(i)) { sym_assert(false, "a database does not open again"); return; }
        std::string k = "k"; SizedBuf out; Status s = db[i]->get(SizedBuf(k), out);
        int v = s.ok() ? (out.size == 1 ? *(uint8_t*)out.data : 256) : s == Status::KEY_NOT_FOUND ? 0 : 257; out.free();
        bool f = false; for (size_t p = hist[i].size(); p >= (exact ? hist[i].size() : solid[i]); --p) if (hist[i][p - 1] == v) { hist[i].resize(p); f = true; break; }
        sym_assert(f, m);
        Iterator it; Status q = it.init(db[i]); Record r; if (q.ok()) q = it.get(r);
        sym_assert(q.ok() == (v != 0) && (!v || (r.kv.key.size == 1 && r.kv.value.size == 1 && *(uint8_t*)r.kv.value.data == v)), m); r.free(); it.close();
    };
    openG();
    mfs_coarse(2);
    if (a >= 4) { write(1, false); if (db[1]) { db[1]->sync(true); solid[1] = hist[1].size(); } }
    if (crash) mfs_crash_at(sym_range(1, 2000, "crash"), power ? MFS_POWER : MFS_KILL);
    if (fault) mfs_fault(sym_range(1, 400, "fault"), 1, sym_choose(0, 1, "kind"));
    int n = 2 + (sym_tier() ? 1 : 0);
    for (int t = 0; t < n && !dead() && !hit; ++t) {
        int i = a >= 3 ? (t ? sym_choose(1, 2, "database") : 2) : t && a ? sym_choose(0, ND - 1, "database") : sym_choose(1, 2, "database");
        switch (sym_choose(late && !t ? 3 : 0, a == 4 && !late && !t ? 2 : 4, "op")) {
        case 0: write(i, false); break;
        case 1: if (t && hist[i].back()) write(i, true); break;
        case 2: if (openD(i)) { if (ok(db[i]->sync(true), "sync") && !dead() && !hit) solid[i] = hist[i].size(); } break;
        case 3: if (openD(i)) { Status s = db[i]->sync(true); if (s.ok() && !dead() && !hit) { solid[i] = hist[i].size(); s = db[i]->flushLogs(FlushOptions()); } ok(s.ok() || s == Status::LOG_NOT_SYNCED || s == Status::ALREADY_PURGED || s == Status::LOG_FILE_NOT_FOUND ? Status() : s, "flush"); } break;
        case 4: if (i && db[i] && sym_choose(0, 1, "one")) { ok(DB::close(db[i]), "close"); db[i] = nullptr; if (!dead() && !hit && !power) solid[i] = hist[i].size(); break; }
                closeAll(); if (!dead() && !hit && !power) for (int k = 0; k < ND; ++k) solid[k] = hist[k].size(); if (!dead() && !hit) openG(); break;
        }
    }
    bool exact = !crash && !hit;
    if (crash && !mfs_crashed()) mfs_crash_now(power ? MFS_POWER : MFS_KILL);
    if (fault) { mfs_fault(0, 0, 0); }
    if (hit) mfs_crash_now(MFS_KILL);
    if (crash || hit) { w.die(); for (auto& d : db) d = nullptr; hit = false; fault = false; crash = false; openG(); }
    // In either order, as the identity of a database must not depend on who is opened first.
    bool rev = a == 0 || a == 2 ? sym_choose(0, 1, "order") : a & 1;
    for (int k = 0; k < ND; ++k) { int i = rev ? ND - 1 - k : k; read(i, exact, "a database of the group does not have its own records"); }
    for (int i = 0; i < ND; ++i) write(i, false);
    closeAll(); openG();
    for (int k = 0; k < ND; ++k) { int i = rev ? k : ND - 1 - k; read(i, true, "a database of the group lost its records or shows others after reopening"); }
    for (int i = 1; i < ND; ++i) { DB* d = nullptr; sym_assert(grp->openDB(&d, nm[i]).ok() && d == db[i], "another handle for an open database"); DB::close(d); }
    closeAll();
    sym_assert(shutdown().ok(), "shutdown");
    sym_cover(1);
}
