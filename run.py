#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py C07 [--tier quick|thorough] [--jobs N] [--keep] [--only harness[:arg]]

For the property it finds the harnesses whose `//@ run <property> <tier> ...`
lines name it, compiles them together with /repo's current sources to LLVM IR,
runs the symbolic executor on the result, replays every counterexample (and a
sample of the explored paths) against natively compiled code, and writes
evidence/<property>.json.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JSYM_REPO", "/repo")
CACHE = os.path.join(V, "build", "cache")
ENGINE = os.path.join(V, "engine", "build", "jsym")
INC = ["-I" + V + "/rt", "-I" + V + "/rt/fdb", "-I" + V + "/harness",
       "-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/tools"]
DEFS = ["-DLOGGER_H=" + V + "/rt/jsym_logger.h", "-DNDEBUG", "-w"]
IRFLAGS = ["-std=c++17", "-O1", "-fno-pic", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DJSYM_ENGINE", "-isystem", V + "/rt/shadow"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
ALLOC_WRAPS = "malloc calloc realloc free posix_memalign _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm".split()
ENV_WRAPS = ("_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv time gettimeofday "
             "clock_gettime rand srand _ZNSt6thread20hardware_concurrencyEv").split()
SLEEP_WRAPS = "usleep nanosleep clock_nanosleep".split()
MFS_WRAPS = ("open close pread pwrite read write lseek fsync fdatasync ftruncate remove unlink rename mkdir rmdir "
             "stat opendir readdir closedir access system popen pclose").split()
THREAD_WRAPS = ("pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_clockwait "
                "pthread_cond_timedwait _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE "
                "_ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv sched_yield "
                "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE "
                "_ZNSt6thread4joinEv _ZNSt6thread6detachEv").split()

INLINE_WRAPS = [w for w in THREAD_WRAPS if w == "sched_yield" or "St6thread" in w]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_engine():
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(V, "engine"), "-j8"])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)


_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d in (REPO + "/src", REPO + "/include", REPO + "/tools", V + "/rt", V + "/harness"):
            for root, _, fs in sorted(os.walk(d)):
                for f in sorted(fs):
                    if f.endswith((".cc", ".cpp", ".bc", ".o")) and "include" not in root:
                        continue
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def compile1(src, mode, extra=()):
    """mode: ir | nat.  Returns (path, error)."""
    flags = (IRFLAGS + DEFS + INC + ["-emit-llvm", "-c"] if mode == "ir" else NATFLAGS + DEFS + INC + ["-c"]) + list(extra)
    key = hashlib.sha256((header_hash() + repr(flags) + src).encode() + open(src, "rb").read()).hexdigest()[:32]
    out = os.path.join(CACHE, key + (".bc" if mode == "ir" else ".o"))
    if os.path.exists(out):
        return out, None
    tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
    r = sh(["clang++"] + flags + [src, "-o", tmp])
    if r.returncode:
        return None, r.stdout[:3000]
    os.rename(tmp, out)
    return out, None


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.src, self.models, self.flags, self.runs, self.threads = [], [], [], [], False
        self.assume = []
        for line in open(path):
            if not line.startswith("//@"):
                continue
            w = line[3:].split()
            if not w: continue
            if w[0] == "src": self.src += w[1:]
            elif w[0] == "models": self.models += w[1:]
            elif w[0] == "flags": self.flags += w[1:]
            elif w[0] == "threads": self.threads = True
            elif w[0] == "assume": self.assume.append(" ".join(w[1:]))
            elif w[0] == "run":
                o = {"prop": w[1], "tier": w[2], "args": [0], "time": 30, "steps": 20000000, "paths": 10**9,
                     "viol": 3, "solver_ms": 10000, "cover": [], "finding": None, "bounds": "", "mem": 3000}
                rest = line.split(" -- ", 1)
                if len(rest) > 1: o["bounds"] = rest[1].strip()
                for kv in rest[0].split()[4:]:
                    k, v = kv.split("=", 1)
                    if k == "args":
                        a = []
                        for p in v.split(","):
                            if "-" in p:
                                x, y = p.split("-"); a += list(range(int(x), int(y) + 1))
                            else: a.append(int(p))
                        o["args"] = a
                    elif k == "cover": o["cover"] = [int(x) for x in v.split(",")]
                    elif k == "finding": o["finding"] = v
                    else: o[k] = int(v)
                self.runs.append(o)

    def sources(self):
        s = [self.path, V + "/rt/env.cpp"]
        for m in self.models: s.append(V + "/rt/" + m + ".cpp")
        for f in self.src:
            if f == "ALL":
                s += sorted(os.path.join(REPO, "src", x) for x in os.listdir(REPO + "/src")
                            if x.endswith(".cc") and x not in ("logger.cc", "jungle_builder.cc", "cmd_handler.cc"))
                s.append(V + "/rt/cmd_stub.cpp")
            else:
                s.append(os.path.join(REPO, f if "/" in f else "src/" + f))
        return s

    def build_ir(self, pool, wd):
        srcs = self.sources() + [V + "/rt/rt_engine.cpp"]
        res = list(pool.map(lambda s: compile1(s, "ir", self.flags), srcs))
        for s, (o, e) in zip(srcs, res):
            if e: return None, "%s: %s" % (s, e)
        out = os.path.join(wd, self.name + ".bc")
        r = sh(["llvm-link", "-o", out] + [o for o, _ in res])
        if r.returncode: return None, r.stdout[:3000]
        return out, None

    def build_native(self, pool, wd):
        out = os.path.join(wd, self.name + ".exe")
        if os.path.exists(out): return out, None
        wraps = list(ALLOC_WRAPS) + ENV_WRAPS + SLEEP_WRAPS
        if "mfs" in self.models: wraps += MFS_WRAPS
        if self.threads: wraps += THREAD_WRAPS
        if "inline_threads" in self.models: wraps += INLINE_WRAPS
        nf = ["-DJSYM_THREADS"] if self.threads else []
        wl = ["-Wl," + ",".join("--wrap=" + w for w in wraps)]
        srcs = self.sources()
        nat, e = compile1(V + "/rt/native.cpp", "nat", nf)
        if e: return None, e
        if self.threads:
            # the native copy is instrumented so that it takes scheduling decisions at the same places
            flags = ["-std=c++17", "-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"] + DEFS + INC + ["-emit-llvm", "-c"]
            objs = []
            def one(s):
                key = hashlib.sha256((header_hash() + "inst" + repr(flags) + repr(self.flags) + s).encode() + open(s, "rb").read()
                                     + open(ENGINE, "rb").read()).hexdigest()[:32]
                o = os.path.join(CACHE, key + ".o")
                if os.path.exists(o): return o, None
                t = os.path.join(wd, "%s.%s" % (self.name, os.path.basename(s)))
                r = sh(["clang++"] + flags + self.flags + [s, "-o", t + ".bc"])
                if r.returncode: return None, r.stdout[:2000]
                r = sh([ENGINE, t + ".bc", "--instrument", t + ".i.bc"])
                if r.returncode: return None, r.stdout[:2000]
                r = sh(["clang++", "-O0", "-fsanitize=address", "-c", t + ".i.bc", "-o", t + ".o"])
                if r.returncode: return None, r.stdout[:2000]
                os.rename(t + ".o", o)
                return o, None
            res = list(pool.map(one, srcs))
        else:
            res = list(pool.map(lambda s: compile1(s, "nat", self.flags), srcs))
        for s, (o, e) in zip(srcs, res):
            if e: return None, "%s: %s" % (s, e)
        r = sh(["clang++", "-fsanitize=address", "-g1"] + wl + [o for o, _ in res] + [nat, "-o", out, "-lpthread", "-ldl"])
        if r.returncode: return None, r.stdout[:3000]
        return out, None


def native_run(h, exe, replay, tmo=60):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:alloc_dealloc_mismatch=1:handle_abort=1:detect_stack_use_after_return=0"
    if h.threads: env["JSYM_THREADS"] = "1"
    else: env.pop("JSYM_THREADS", None)
    d = replay + ".d"
    os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([exe, replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=tmo, env=env, cwd=d)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_replay(path, arg, inputs, head=()):
    with open(path, "w") as f:
        for l in head: f.write("# " + l.replace("\n", " ") + "\n")
        f.write("arg %d\n" % arg)
        for n, v, w in inputs: f.write("%s\t= %d\n" % (n, v))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--warm", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--time", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    build_engine()
    if a.warm: return
    wd = os.path.join(V, "build", "%s-%d" % (a.prop, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    rdir = os.path.join(V, "replays", a.prop)
    os.makedirs(rdir, exist_ok=True)
    findings = {}
    try:
        for f in json.load(open(V + "/known_findings.json")).get("findings", []):
            if f["property"] == a.prop: findings[f["id"]] = f
    except FileNotFoundError:
        pass
    hs = [Harness(os.path.join(V, "harness", f)) for f in sorted(os.listdir(V + "/harness")) if f.endswith(".cc")]
    jobs, notes = [], []
    pool = ThreadPoolExecutor(a.jobs)
    npool = ThreadPoolExecutor(a.jobs)
    mine = []
    for h in hs:
        rs = [r for r in h.runs if r["prop"] == a.prop and (r["tier"] == tier or r["tier"] == "both")]
        if a.only and a.only.split(":")[0] != h.name: rs = []
        if rs: mine.append((h, rs))
    if not mine:
        print("no harness for", a.prop); sys.exit(2)
    failed_build = 0
    built = {}
    def bld(hr):
        return hr[0].build_ir(pool, wd)
    with ThreadPoolExecutor(len(mine)) as bp:
        res = list(bp.map(bld, mine))
    for (h, rs), (bc, e) in zip(mine, res):
        if e:
            failed_build += 1
            notes.append("harness %s could not be encoded: %s" % (h.name, e.strip()[:1500]))
            print("NOTE", notes[-1])
            continue
        built[h.name] = bc
        for r in rs:
            for arg in r["args"]:
                if a.only and ":" in a.only and int(a.only.split(":")[1]) != arg: continue
                jobs.append((h, r, arg))
    env = dict(os.environ); env["VERIF_TIER"] = tier
    def run1(j):
        h, r, arg = j
        out = os.path.join(wd, "%s.%d.%s.json" % (h.name, arg, r["tier"]))
        cmd = [ENGINE, built[h.name], "--max-time", str(a.time or r["time"]), "--max-steps", str(r["steps"]), "--max-paths", str(r["paths"]),
               "--max-viol", str(r["viol"]), "--solver-ms", str(r["solver_ms"]), "--samples", "12", "--out", out,
               "--repo", REPO + "/", "--arg", str(arg), "--mem-mb", str(r["mem"])]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env,
                               timeout=(a.time or r["time"]) * 2 + 60)
            rc, o = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, o = -1, "engine timeout"
        try:
            d = json.load(open(out))
        except Exception:
            d = None
        if a.v and d:
            print("[%s:%d] paths=%d incomplete=%d pending=%d exh=%s viol=%d wall=%.1f solver=%.1f cover=%s %s" % (
                h.name, arg, d["paths"], d["paths_incomplete"], d["pending"], d["exhaustive"], len(d["violations"]), d["wall_s"], d["solver_s"],
                d["cover"], json.dumps(d["incomplete"]) if d["incomplete"] else ""), flush=True)
        if (not d or a.v) and o.strip(): print("[%s:%d] rc=%s %s" % (h.name, arg, rc, o[-2000:]))
        return d, o
    with ThreadPoolExecutor(a.jobs) as jp:
        outs = list(jp.map(run1, jobs))
    # ---- replays
    reported, unreproduced, validated, mismatched, knownseen = [], [], 0, 0, {}
    todo = []
    for (h, r, arg), (d, _) in zip(jobs, outs):
        if d is None:
            notes.append("engine gave no result for %s arg %d" % (h.name, arg)); continue
        for i, s in enumerate(d["samples"]): todo.append((h, r, arg, "sample", i, s))
        for i, s in enumerate(d["violations"]): todo.append((h, r, arg, "viol", i, s))
    exes = {}
    def natbuild(h):
        return h.name, h.build_native(pool, wd)
    need = {t[0].name: t[0] for t in todo}
    if need:
        with ThreadPoolExecutor(len(need)) as bp:
            for n, v in bp.map(natbuild, need.values()): exes[n] = v
    for n, (x, e) in exes.items():
        if e:
            notes.append("native replay of %s does not build: %s" % (n, e[:1500])); print("NOTE", notes[-1])
    def rep1(t):
        h, r, arg, kind, i, s = t
        exe, e = exes[h.name]
        if e: return t, None
        rp = os.path.join(wd if kind == "sample" else rdir, "%s-%s-%d-%d.replay" % (h.name, kind, arg, i))
        head = []
        if kind == "viol":
            head = ["property %s" % a.prop, "tier %s" % tier, "harness %s" % h.name, "kind %s" % s["kind"], "message %s" % s["msg"], "at %s" % s["loc"],
                    "trace %s" % s["trace"],
                    "replay: %s/replay.sh <this file>" % V]
        write_replay(rp, arg, s["inputs"], head)
        res = native_run(h, exe, rp, 30 if kind == "viol" else 60)
        if kind == "sample" and res[0] != 0:      # only what fails natively again and again counts
            for _ in range(2):
                again = native_run(h, exe, rp, 60)
                if again[0] != res[0]: res = again; break
        return t, (rp,) + res
    with ThreadPoolExecutor(a.jobs) as jp:
        reps = list(jp.map(rep1, todo))
    seen = set()
    for t, res in reps:
        h, r, arg, kind, i, s = t
        if res is None:
            if kind == "viol": unreproduced.append("%s:%d %s %s (no native build)" % (h.name, arg, s["kind"], s["msg"]))
            continue
        rp, rc, so, se = res
        bad = rc in (98, 99) or (isinstance(rc, int) and rc < 0) or (kind == "viol" and rc == "timeout" and s["kind"] in ("non-termination", "deadlock"))
        if kind == "sample":
            obs = [int(l[4:]) for l in so.splitlines() if l.startswith("OBS ")]
            if rc == 0 and obs == s["obs"]: validated += 1
            elif bad:
                rp2 = os.path.join(rdir, "%s-sample-%d-%d.replay" % (h.name, arg, i))
                shutil.copy(rp, rp2)
                reported.append((h, arg, "native", (se.strip().splitlines() or [str(rc)])[0][:300], rp2, r))
            else:
                mismatched += 1
                notes.append("sample path of %s:%d disagrees with native run: rc=%s engine=%s native=%s %s" % (h.name, arg, rc, s["obs"][:20], obs[:20], se[-300:]))
                if a.v: print("NOTE", notes[-1], rp)
        else:
            if bad:
                reported.append((h, arg, s["kind"], "%s @ %s" % (s["msg"], s["loc"]), rp, r))
            else:
                unreproduced.append("%s:%d %s: %s @ %s (native rc=%s) %s" % (h.name, arg, s["kind"], s["msg"], s["loc"], rc, se[-200:]))
    rc = 0
    nviol = 0
    for h, arg, k, msg, rp, r in reported:
        fid = r["finding"]
        if fid and fid in findings and re.search(findings[fid]["match"], msg):
            if fid not in knownseen:
                knownseen[fid] = 1
                print("KNOWN-FINDING: property=%s %s" % (a.prop, findings[fid]["what"]))
            continue
        nviol += 1
        rc = 1
        print("violated [%s arg %d] %s: %s" % (h.name, arg, k, msg))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp), flush=True)
    for u in unreproduced: print("NOTE counterexample not reproduced natively:", u)
    # ---- vacuity
    want, got = set(), set()
    for (h, r, arg), (d, _) in zip(jobs, outs):
        for c in r["cover"]: want.add((h.name, c))
        if d:
            for c in d["cover"]: got.add((h.name, c))
    vac = sorted(want - got)
    if vac: notes.append("reachability witnesses not reached: %s" % vac); print("NOTE", notes[-1])
    ds = [d for d, _ in outs if d]
    def S(k): return sum(d[k] for d in ds)
    funcs = {}
    for d in ds:
        for n, f, c, tot in d["functions"]:
            o = funcs.get(n)
            if not o or c > o[1]: funcs[n] = (f, c, tot)
    nexh = sum(1 for d in ds if d["exhaustive"])
    samples = []
    for (h, r, arg), (d, _) in zip(jobs, outs):
        if d:
            for s in d["samples"][:2]:
                samples.append({"harness": h.name, "arg": arg, "inputs": {("%s#%d" % (x[0], k)): x[1] for k, x in enumerate(s["inputs"][:24])},
                                "observed": s["obs"][:16], "constraints": s["constraints"]})
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {
              "states": S("paths") + S("paths_assumed_away") + S("paths_incomplete"), "transitions": S("instructions"),
              "traces_validated_against_impl": validated, "samples": samples[:40],
              "paths_completed": S("paths"), "paths_incomplete": S("paths_incomplete"), "paths_pending": S("pending"),
              "runs": len(jobs), "runs_exhaustive_within_bounds": nexh,
              "assertions_decided": S("asserts"), "assertion_queries": S("assert_queries"), "memory_safety_queries": S("mem_queries"),
              "branch_decisions": S("branch_decisions"), "forks": S("forks"),
              "solver_queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "decided_by_gf2_elimination": S("linear_queries"),
              "decided_by_finite_domain_search": S("domain_queries"), "decided_by_abstraction": S("abstracted_queries"), "decided_by_model_probing": S("probed_queries"),
              "query_cache_hits": S("cache_hits"), "solver_s": round(sum(d["solver_s"] for d in ds), 3),
              "solver_max_query_s": max([d["solver_max_s"] for d in ds] or [0]),
              "functions_encoded": len(funcs),
              "functions": ["%s (%s) %d/%d" % (n, os.path.basename(f[0]), f[1], f[2]) for n, f in sorted(funcs.items())][:400],
              "sample_mismatches": mismatched, "unreproduced": unreproduced,
              "witnesses_required": sorted("%s:%d" % w for w in want), "witnesses_missing": ["%s:%d" % w for w in vac],
              "bounds": [{"harness": h.name, "args": r["args"], "time_limit_s": r["time"], "bounds": r["bounds"]} for h, rs in mine for r in rs],
              "incomplete_reasons": {k: v for d in ds for k, v in d["incomplete"].items()},
              "per_run": [{"harness": h.name, "arg": arg, "paths": d["paths"], "exhaustive": d["exhaustive"], "stop": d["stop"], "wall_s": d["wall_s"]}
                          for (h, r, arg), (d, _) in zip(jobs, outs) if d],
              "known_findings_seen": sorted(knownseen), "notes": notes,
          },
          "assumptions": sorted({x for h, _ in mine for x in h.assume}),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % a.prop, "w"), indent=1)
    if not a.keep: shutil.rmtree(wd, ignore_errors=True)
    print("%s %s: runs=%d exhaustive=%d paths=%d incomplete=%d queries=%d solver=%.1fs validated=%d mismatch=%d violations=%d wall=%.1fs" % (
        a.prop, tier, len(jobs), nexh, S("paths"), S("paths_incomplete"), S("queries"), ev["coverage"]["solver_s"], validated, mismatched, nviol, ev["wall_s"]))
    if rc == 0 and not ds: rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
