#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(R, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="bash run.sh " + i,
            thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC; traces recorded from the real code validated against it with TLC",
            level="model_checking",
            level_note=c.get("note", "Design model checked exhaustively within small constants; the binding to the code covers the recorded executions (seeded instances over the stated quantifier), each judged by the specification in exact arithmetic. Trusts TLC, the Java number overrides and the recording drivers.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="bash run.sh --setup",
         hooks=dict(guard="VERIF_HOOKS", enable="No hooks are needed: the checks observe public calls only; the variable guards nothing.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks: bash run.sh <id>; tier and seed from VERIF_TIER and VERIF_SEED. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
