#!/usr/bin/env python3
"""Run one recorded counterexample against natively compiled code (the harness
plus /repo's current sources, AddressSanitizer on).  Exit 1 if it still fails."""
import os, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import run
rp = os.path.abspath(sys.argv[1])
head = {}
for l in open(rp):
    if not l.startswith("# "): break
    k, _, v = l[2:].strip().partition(" ")
    head.setdefault(k, v)
name = head.get("harness") or os.path.basename(rp).split("-")[0]
os.environ.setdefault("VERIF_TIER", head.get("tier", "quick"))
os.makedirs(run.CACHE, exist_ok=True)
run.build_engine()
h = run.Harness(os.path.join(run.V, "harness", name + ".cc"))
wd = tempfile.mkdtemp(prefix="replay", dir=os.path.join(run.V, "build"))
try:
    exe, e = h.build_native(ThreadPoolExecutor(8), wd)
    if e: print(e); sys.exit(2)
    for k in ("property", "kind", "message", "at"):
        if k in head: print("%-9s %s" % (k, head[k]))
    rc, so, se = run.native_run(h, exe, rp)
    print(so[-3000:] + se[-6000:])
    print("native run:", "fails (rc=%s)" % rc if rc not in (0,) else "passes")
    sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(wd, ignore_errors=True)
