#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one entry per registered check (run by hand after editing; checks never run it)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import checks
TECH = {
 "P20": "stateless model checking of the compiled code: instrumented OpenMP runtime, conflict detection plus exhaustive interleavings",
}
HIST = {"P23", "P24", "P25", "P26", "P27", "P31"}
NOTE = {}
na, cs = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if i in checks.CHECKS:
        cs.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=TECH.get(i, ("exhaustive bounded exploration of operation histories on the real code, every execution compared with a reference model" if i in HIST else
                "explicit-state exhaustive enumeration of all bounded inputs on the real code, every execution compared with an independent reference model")),
            level="model_checking",
            level_note=checks.CHECKS[i].get("note") or "Every execution within the stated bounds is run on the real code and compared with a reference; nothing is said beyond the bounds. " + "; ".join(checks.CHECKS[i]["assumptions"])))
    else:
        na.append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c \"import os; os.makedirs('build', exist_ok=True); os.makedirs('out', exist_ok=True)\"", checks=cs, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed,", len(na), "not claimed")
