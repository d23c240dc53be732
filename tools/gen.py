#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
from checks import CHECKS
import props
NA = getattr(props, "NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the checks build the library's own sources with instrumentation and redirect its allocator at link time. Findings that were repaired are listed in known_findings.txt."}
for p in props.P:
    i = p["id"]
    if i in NA:
        continue
    c = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
