#!/usr/bin/env python3
"""Development aid: verify planted bugs in a scratch copy of /repo.
  dev/seed.py save ID PROP "needs" "breaks"   diff of /tmp/sd -> seeded/ID (demo.sh must be there already)
  dev/seed.py check ID... [--nobuild] [--nocheck]
"""
import sys, os, subprocess, json, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sd"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if not os.path.isdir(S):
        sh("mkdir -p %s && cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp -a /repo/.git %s/.git" % (S, S, S))
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/build.sh", S + ".build.sh")
            open(S + "." + f, "w").write(t)
        sc = open("/opt/vp/scope.py").read().replace("/repo", S)
        open(S + ".scope.py", "w").write(sc)
        t = open(S + ".build.sh").read().replace("/opt/vp/scope.py", S + ".scope.py"); open(S + ".build.sh", "w").write(t)
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f %s; git -C %s clean -fdq -e _build" % (S, S, h, S))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def demo(i):
    d = "/tmp/sd_demo_" + i
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(V + "/seeded/" + i, d)
    for f in glob.glob(d + "/*.diff") + [d + "/meta.json"]: os.remove(f)
    r = subprocess.run("timeout 300 bash %s/demo.sh" % d, shell=True, cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return r
def check(i, build, run):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    fresh()
    a = demo(i)
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (S, V, i))
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); return
    st = "built:skipped"
    if build:
        t = sh("bash %s.test.sh %s.out.json" % (S, S))
        try: ps = set(json.load(open(S + ".out.json"))["passed"])
        except Exception: ps = set()
        miss = stable - ps
        st = "tests ok" if not miss else "TESTS FAIL %s %s" % (sorted(miss)[:4], t.stdout[-800:] if not ps else "")
    b = demo(i)
    res = ""
    if run:
        e = dict(os.environ, JSYM_REPO=S, VERIF_SEED="1", VERIF_TIER="quick")
        c = subprocess.run(["python3", V + "/run.py", m["property"], "--tier", "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        vio = [l for l in c.stdout.splitlines() if l.startswith("violated")]
        res = "CAUGHT %s" % vio[0] if c.returncode == 1 else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:])
    ok = a.returncode == 0 and b.returncode not in (0, 124)
    print("%s [%s] demo clean=%d patched=%d %s | %s | %s" % (i, m["property"], a.returncode, b.returncode, "ok" if ok else "BAD " + a.stdout[-300:] + b.stdout[-300:], st, res), flush=True)
    sh("git -C %s checkout -q -f -- ." % S)
a = [x for x in sys.argv[1:] if not x.startswith("--")]
if a[0] == "fresh": fresh()
elif a[0] == "save":
    d = V + "/seeded/" + a[1]; os.makedirs(d, exist_ok=True)
    p = subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert p.strip(); open(d + "/patch.diff", "w").write(p)
    json.dump({"property": a[2], "needs": a[3], "what_it_breaks": a[4]}, open(d + "/meta.json", "w"), indent=1)
elif a[0] == "check":
    ids = a[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: check(i, "--nobuild" not in sys.argv, "--nocheck" not in sys.argv)
