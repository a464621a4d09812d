#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/jobs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
import jobs as J
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p["id"] in J.PROPS:
        s = J.PROPS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
            "technique": s.get("technique", "symbolic execution of the Go SSA of the real code; SMT (z3, cvc5) decides every assertion; counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": "Holds for every value within: " + s["bounds"] + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s["assumptions"] else "") +
                          " Trusts gosym's semantics of Go SSA (compared with native runs) and the solvers.",
        })
    else:
        na.append({"property": p["id"], "reason": J.NOT_APPLICABLE.get(p["id"], "no check yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: harnesses are added with an overlay. known_findings.txt lists the defects repaired in /repo."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
