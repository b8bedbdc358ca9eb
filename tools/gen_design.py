#!/usr/bin/env python3
"""Writes DESIGN.md.  Usage: gen_design.py LIST (the output of "mc list")."""
import json, os, re, sys, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
prose = json.load(open(T + "design_props.json"))
scen = collections.defaultdict(list)
for l in open(sys.argv[1]):
    m = re.match(r"(C\d+) (.*?) +race=(\w+) (.*)", l)
    scen[m[1]].append((m[2], m[3] == "true", m[4]))
bugs = collections.defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    bugs[d["property"]].append((os.path.basename(os.path.dirname(f)), d["what_it_breaks"]))
kf = json.load(open(V + "/known_findings.json"))
o = [open(T + "design_head.md").read()]
o.append("## 2. The properties, one by one\n")
o.append("Each entry: how it is decided and against what; the scenarios (R: also in the race build); the planted bugs the check\n"
         "catches (every one of them is caught by the check of its own property; `seeded/`).\n")
for p in props:
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append(prose[i] + "\n")
    for n, r, d in scen[i]:
        o.append("- `%s`%s: %s" % (n, " (R)" if r else "", d))
    o.append("")
    o.append("Planted: " + "; ".join("`%s` (%s)" % b for b in bugs[i]) + ".\n")
o.append(open(T + "design_tail.md").read().replace("@@FIXED@@", "\n".join("- " + f[len("fixed: property="):] for f in kf["fixed"])))
open(V + "/DESIGN.md", "w").write("\n".join(o))
miss = [p["id"] for p in props if p["id"] not in prose or not scen[p["id"]] or not bugs[p["id"]]]
print("DESIGN.md:", sum(len(x) for x in scen.values()), "scenarios", sum(len(b) for b in bugs.values()), "bugs", "missing:", miss)
