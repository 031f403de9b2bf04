#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "not_applicable.json"))) if os.path.exists(os.path.join(HERE, "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    d = os.path.join(HERE, "harness", i)
    if os.path.isdir(d):
        m = json.load(open(os.path.join(d, "meta.json")))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": m.get("technique", "stateless explicit enumeration of bounded behaviours of the real code against a reference model"),
                       "level": "model_checking",
                       "level_note": m.get("level_note", "Every behaviour within these bounds, on the real headers compiled with ASAN and UBSAN: " + m["bounds"] +
                                           (". Assumes: " + "; ".join(m["assumptions"]) if m.get("assumptions") else ""))})
    else:
        na.append({"property": i, "reason": NA[i]})
out = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo: sockets are driven through interposed system calls. known_findings.txt lists repaired and open defects."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
