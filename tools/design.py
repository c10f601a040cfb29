#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, notes.py, props.py, known_findings.jsonl, seeded/*/meta.json, design_mut.md, design_tail.md and catch.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools")
sys.path[:0] = [V, T]
from props import PROPS
from checks import CHECKS
rd = lambda n: open(os.path.join(T, n)).read() if os.path.exists(os.path.join(T, n)) else ""
o = [rd("design_head.md"), "## Properties\n"]
cost = json.load(open(os.path.join(T, "cost.json"))) if os.path.exists(os.path.join(T, "cost.json")) else {}
for p in PROPS:
    i = p["id"]
    if i not in CHECKS: continue
    c = CHECKS[i]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append("* technique: " + c["technique"])
    o.append("* specified, enumerated, oracle: " + c["note"])
    o.append("* quick bounds: %s" % c["bounds"]["quick"])
    o.append("* thorough adds: %s" % c["bounds"]["thorough"])
    if c["assumptions"]: o.append("* not claimed: " + "; ".join(c["assumptions"]))
    if i in cost: o.append("* cost: " + cost[i])
    o.append("")
o.append("## Defects of homog2d found, and repaired or recorded\n")
o.append("Open findings (listed in known_findings.jsonl, printed as KNOWN-FINDING):\n")
fx = []
for l in open(os.path.join(V, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"): fx.append(l)
    elif l and not l.startswith("#"):
        d = json.loads(l); o.append("* %s (%s): %s" % (d["id"], d["property"], d["what"]))
o.append("\nRepaired (%d `fix:` commits in /repo, each with the smallest change that corrects the behaviour; the existing test suite passes unedited):\n" % len(fx))
for l in fx: o.append("* " + l[7:])
o.append("\n## Planted bugs and which checks catch them\n")
cat = json.load(open(os.path.join(T, "catch.json"))) if os.path.exists(os.path.join(T, "catch.json")) else {}
o.append("| seed | property | what it needs to manifest | caught by |\n|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    o.append("| %s | %s | %s | %s |" % (s, m["property"], str(m.get("needs","")).replace("|","/")[:260], cat.get(s, m["property"] + " quick")))
o.append("")
o.append(rd("design_mut.md")); o.append(rd("design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
