#!/usr/bin/env python3
"""DESIGN.md from dev/DESIGN.in, properties, harness directives and seeds."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
note = {c["property"]: c["level_note"].split(" Decided by")[0] for c in M["checks"]}
H = {}
for f in sorted(glob.glob(V + "/harness/*.cc")):
    src = "";
    for l in open(f):
        if l.startswith("//@ run "):
            t = l.split(); d = l.split(" -- ", 1)[1].strip() if " -- " in l else ""
            H.setdefault(t[2], []).append((t[3], os.path.basename(f), d))
        if l.startswith("//@ assume "):
            H.setdefault("_" + os.path.basename(f), []).append(l[11:].strip())
out = ["## Properties", ""]
for p in P:
    i = p["id"]; out.append("### %s %s" % (i, p["title"])); out.append("")
    if i in na: out += ["Not applicable: " + na[i], ""]; continue
    out.append("Decides: %s Why tests cannot: %s." % (note.get(i, ""), p["why_tests_cant"].rstrip(".")))
    ts = os.path.join(V, "dev/times.json"); T = json.load(open(ts)) if os.path.exists(ts) else {}
    if i in T: out.append("Cost: quick %s s." % T[i])
    fs = []
    for tier, f, d in H.get(i, []):
        out.append("* %s, `harness/%s`: %s" % (tier, f, d)); fs.append(f)
    for f in dict.fromkeys(fs):
        for a in H.get("_" + f, []): out.append("* assumes: " + a)
    out.append("")
seeds = ["| seed | property | needs | breaks |", "|---|---|---|---|"]
for s in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(s)); seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(s)), m["property"], m["needs"], m["what_it_breaks"]))
t = open(V + "/dev/DESIGN.in").read().replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
K = json.load(open(V + "/known_findings.json"))
fx = ["* " + x.replace("fixed: property=", "", 1) for x in K["fixed"]] + ["* recorded, not repaired: " + (x if isinstance(x, str) else json.dumps(x)) for x in K["findings"]]
t = t.replace("@@FIXED@@", "\n".join(fx))
open(V + "/DESIGN.md", "w").write(t)
