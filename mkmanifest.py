#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and plan.py (development helper)."""
import json
from plan import PLAN
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        x = PLAN[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": x.get("technique", "explicit enumeration of all bounded executions of the real code against a reference model (stateless model checking)"),
            "level": "model_checking",
            "level_note": x.get("note", "Every execution within the bounds listed in the evidence is run on the code of the current tree and compared with an independent reference model; nothing is said beyond the bounds. Trusts the reference model in mc/oracle.h and the harness, the compiler and the C++ library.")})
    else:
        na.append({"property": i, "reason": x if (x := {}.get(i)) else "Not built yet."})
m = {"version": 1, "setup_cmd": "python3 -c 'import plan' && g++ --version >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harnesses compile the repository's own headers and tools. check.py compiles them from /repo's working tree on every run."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
