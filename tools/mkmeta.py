#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
from claims import CLAIMS, NA, HOOKS, NOTES
root = os.path.dirname(here)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
ids = [p["id"] for p in P]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = []
for id in ids:
    if id in CLAIMS:
        c = CLAIMS[id]
        checks.append(dict(property=id, quick_cmd=f"./check {id}", thorough_cmd=f"./check {id} --thorough",
                           evidence_file=f"evidence/{id}.json",
                           technique=c.get("technique", "bounded symbolic execution of the real Python code, SMT (z3/cvc5)"),
                           level=c.get("level", "model_checking"), level_note=c["note"]))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
