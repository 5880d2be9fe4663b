#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.PLANS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plans
STREAM = "the stream contract (StreamContract.tla)"
def note(p):
    P = plans.PLANS[p]
    ms = sorted({m[0] for m in P.models + P.tmodels})
    return ("Every call of seeded and TLC-generated histories on the real library is recorded and TLC decides each event against %s; "
            "%sBounded by the generated scenarios; trusts TLC, Python's reference encoders/writers and the sanitizer build." %
            (P.oracle, ("design models %s are checked exhaustively within their constants; " % ", ".join(ms)) if ms else ""))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                 "technique": "TLA+ specification checked with TLC; TLC trace validation of recorded executions; replay of TLC-generated behaviours",
                 "level": "model_checking", "level_note": note(p)} for p in ids if p in plans.PLANS],
     "not_applicable": [{"property": p, "reason": "not claimed yet: the trace specification for this part is under construction"} for p in ids if p not in plans.PLANS],
     "notes": "check.py builds the library from /repo's working tree in a scratch directory under /tmp. VERIF_TIER=thorough with VERIF_BUDGET=<seconds> (default 600) repeats generation and validation with fresh seeds and adds larger model configurations. No hooks are needed: the public API exposes the projected state."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
