#!/usr/bin/env python3
"""Development aid: random one-line mutants of a source file against the checks that are to notice them.
  dev/mutate.py FILE PROP[,PROP] COUNT SEED [OUT]     prints the mutants that no check noticed
Works on a copy of /repo and of /verif under /tmp/mut.<pid>."""
import sys, os, re, random, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, props, count, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
out = open(sys.argv[5], "a") if len(sys.argv) > 5 else sys.stdout
W = "/tmp/mut.%d" % os.getpid()
os.makedirs(W)
subprocess.run("cd /repo && git ls-files -z src include | xargs -0 cp --parents -t %s/repo" % W if os.makedirs(W + "/repo") is None else "", shell=True, check=True)
subprocess.run("mkdir %s/v && cp -a %s/engine %s/rt %s/harness %s/run.py %s/replay.sh %s/known_findings.json %s/v/ 2>/dev/null; for i in %s/*.py %s/*.json*; do cp $i %s/v/; done" % (W, V, V, V, V, V, V, W, V, V, W), shell=True)
src = open("/repo/" + f).read().split("\n")
OPS = [(r"(?<![<\-])<(?![<=])(?!\w*>)", "<="), (r"<=", "<"), (r"(?<![\->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![-=>])", "+"), (r"\+=", "-="), (r"\+\+", "--"), (r"<<(?!=)", ">>"), (r"(?<!&)&(?!&)(?=\s)", "|"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1))]
cand = []
block = False
for i, l in enumerate(src):
    s = l.strip()
    if "/*" in s: block = True
    b = block
    if "*/" in s: block = False
    if b or not s or s.startswith(("//", "#", "*", "using", "namespace", "_log", "class", "struct", "friend", "template", "public", "private", "assert")) or "_log_" in s: continue
    code = l.split("//")[0]
    for r, t in OPS:
        for m in re.finditer(r, code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
            n = code[:m.start()] + (t(m) if callable(t) else t) + code[m.end():]
            cand.append((i, n))
    if s.endswith(";") and re.match(r"[\w>\-.:\[\]()*]+(\(| *[-+|&]?= |\+\+|--)", s) and not s.startswith("return"): cand.append((i, ""))
    if s.startswith(("if (", "} else if (")) and s.endswith(("{", ")", ";")): cand.append((i, code.replace("if (", "if (false && ", 1)))
    if s in ("break;", "continue;"): cand.append((i, ""))
random.Random(seed).shuffle(cand)
n = k = c = 0
for i, t in cand:
    if n >= count: break
    m = list(src); m[i] = t
    open(W + "/repo/" + f, "w").write("\n".join(m))
    res = None
    for p in props:
        r = subprocess.run("cd %s/v && JSYM_REPO=%s/repo timeout 400 python3 run.py %s" % (W, W, p), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 1: res = "caught"; break
        if r.returncode != 0: res = "rc%d %s" % (r.returncode, r.stdout[-300:].replace("\n", " ")); 
        if "error:" in r.stdout: res = "nocompile"; break
    if res == "nocompile": c += 1; continue
    n += 1
    if res == "caught": k += 1
    else: out.write("%s:%d [%s]\n  - %s\n  + %s\n" % (f, i + 1, res or "quiet", src[i].strip(), t.strip())); out.flush()
out.write("%s %s: %d mutants, %d caught, %d not compiled\n" % (f, props, n, k, c)); out.flush()
shutil.rmtree(W)
