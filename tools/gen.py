#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as o:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        o.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if "technique" not in p:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "TLA+ specifications under specs/, checked with TLC, bound to the code by replay and trace validation; see DESIGN.md."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
ids = {p["id"] for p in PROPS}
claimed = {c["property"] for c in checks}
na = {n["property"] for n in NOT_APPLICABLE}
assert claimed | na == ids and not claimed & na, (ids - claimed - na, claimed & na)
print(len(ids), "properties,", len(checks), "checks")

from design import D
o = [open(V + "/tools/design_head.md").read(), "\n## Properties\n"]
for p in PROPS:
    o.append("\n### %s %s\n\n%s\n\n*Decided by*: %s. *Bounds*: %s\n\n*Beyond the tests*: %s\n\n%s\n" % (
        p["id"], p["title"], p["statement"], p.get("technique", "(not claimed)"), p.get("note", ""), p["why_tests_cant"], D.get(p["id"], "")))
o.append("\n## Not applicable\n\n" + ("\n".join("* %s: %s" % (n["property"], n["reason"]) for n in NOT_APPLICABLE) or "Every listed property is decided by the technique.") + "\n")
o.append("\n## Repaired defects and known findings\n\n")
for l in open(V + "/KNOWN_FINDINGS.txt"):
    if l.strip():
        o.append("* " + l.strip() + "\n")
tail = V + "/tools/design_tail.md"
if os.path.exists(tail):
    o.append("\n" + open(tail).read())
o.append("\n## Planted bugs\n\nEach is caught by the quick check of its property (exit 1), confirmed with `tools/seedtest.sh`; exceptions are marked.\n\n| id | property | needs | caught |\n|---|---|---|---|\n")
missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
for s in sorted(os.listdir(V + "/seeded")):
    mm = json.load(open(V + "/seeded/%s/meta.json" % s))
    o.append("| %s | %s | %s | %s |\n" % (s, mm["property"], mm["needs"], "no" if s in missed else "yes"))
open(V + "/DESIGN.md", "w").write("".join(o))
