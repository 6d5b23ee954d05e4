#!/usr/bin/env python3
"""DV_RECORD_HINTS=DIR ./check.py J04; tools/merge_hints.py DIR: remembers the loop invariants a run settled on (dv/jhints.json);
they only order the search, each is proved again on every run."""
import json, glob, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dv", "jhints.json")
h = json.load(open(F)) if os.path.exists(F) else {}
for f in sorted(glob.glob(sys.argv[1] + "/*.json")):
    d = json.load(open(f))
    if d["hints"]:
        h[d["key"]] = d["hints"]
json.dump(h, open(F, "w"), indent=0, sort_keys=True)
print(len(h), "cases")
