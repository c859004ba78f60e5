#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks table and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks_table import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
try:
    from checks_table import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check %s" % i,
                           technique=c.get("tech", "property-based testing"), level=c.get("level", "exploration"), level_note=c.get("note", "sampled inputs only; the oracle is independent code in /verif")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/check --build P01", checks=checks, not_applicable=na,
         notes="bin/check ID builds the library from /repo's working tree under /verif/.build and runs the check; bin/check ID --replay FILE replays a violation. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
