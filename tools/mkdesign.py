#!/usr/bin/env python3
"""Assemble DESIGN.md from design_head.md, the properties, the checks' own constants and the findings file."""
import ast, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
from claims import NA
from checks_notes import NOTES_BY_ID
from design_notes import O
root = os.path.dirname(here)
head = open(os.path.join(here, "design_head.md")).read()
tail = open(os.path.join(here, "design_tail.md")).read()
out = [head.rstrip(), "", "## Properties and how each is decided", ""]
for p in P:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    f = os.path.join(root, "checks", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        out += ["Not applicable: " + NA.get(i, "no check built"), ""]
        continue
    t = ast.parse(open(f).read())
    const = {}
    hs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            const[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any("harness" in ast.unparse(d) for d in n.decorator_list):
            d = ast.get_docstring(n)
            hs.append("`%s`%s" % (n.name, " (%s)" % " ".join(d.split()) if d else ""))
    o, why = O[i]
    out.append("- Oracle: " + o)
    out.append("- Beyond tests: " + why)
    out.append("- Harnesses: " + "; ".join(hs) + ".")
    out.append("- Bounds: " + const.get("BOUNDS", "").strip() + ".")
    out.append("- Outside: " + const.get("OUTSIDE", "").strip() + ".")
    if const.get("ASSUMPTIONS"):
        out.append("- Assumed: " + "; ".join(const["ASSUMPTIONS"]) + ".")
    out.append("")
out += ["## Genuine defects found", "", "All repaired by small `fix:` commits in /repo and listed in known_findings.json (a fixed entry suppresses nothing).", ""]
for e in json.load(open(os.path.join(root, "known_findings.json"))):
    out.append("- %s %s `%s`: %s" % (e["property"], e["status"], e.get("commit", ""), re.sub(r"^fixed: property=\S+ \S+ ", "", e.get("line", e.get("what", "")))))
out += ["", tail.rstrip(), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
