#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
 "K02": "Determinism over all schemas is a relational property of the whole Java compiler (collections, template engine, file system); no contract within reach of an available deductive verifier expresses it, and comparing runs would be testing, not this technique.",
 "K03": "Name resolution over all schemas depends on the generated ANTLR parser, the whole AST and Java collections; no available deductive verifier can bring these functions under contract offline.",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if os.path.exists(path):
        src = open(path).read()
        g = {}
        m = re.search(r'^TECHNIQUE = (".*?"|\(.*?\))$', src, re.M | re.S)
        tech = eval(m.group(1)) if m else "deductive: contracts on the real Python functions, obligations generated by executing their code symbolically, discharged by z3"
        m = re.search(r'^NOTE = (".*?"|\(.*?\))$', src, re.M | re.S)
        note = eval(m.group(1)) if m else "every obligation discharged for all inputs; see ASSUMPTIONS and TRUSTED in the evidence"
        m = re.search(r'^LEVEL = "(.*?)"$', src, re.M)
        checks.append(dict(property=pid, quick_cmd="./check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check.py %s" % pid,
                           technique=tech, level=m.group(1) if m else "proof", level_note=note))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "No check is built yet: the planned contracts (see DESIGN.md) were not finished, so the property is not claimed.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
