#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/specs.py: every property with a spec is claimed."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vf.specs import SPECS
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    if p in SPECS:
        s = SPECS[p]
        checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                       "technique": s.get("technique", "explicit-state model checking of the real code (exhaustive bounded enumeration against a reference model)"),
                       "level": "model_checking",
                       "level_note": "Holds on every case within the bounds (%s). Rule: %s. Trusted: the reference model in harness/%s and the compiler.%s" % (s["bounds"][0], s["rule"], s["harness"], (" Assumes: " + "; ".join(s["assumptions"]) + ".") if s.get("assumptions") else "")})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet for this property.")})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses link the unmodified sources, reduced capacities are set by re-defining Config.h macros on the command line."},
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
