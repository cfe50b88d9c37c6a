#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from catalogue.py"""
import json, os
from catalogue import PROPS
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(top, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []),
                        "hook_needed": p.get("hook")}}) + "\n")
checks, na = [], []
for pid, p in PROPS.items():
    if p.get("harness") is None:
        na.append({"property": pid, "reason": p["na"]})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "python3 check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": p["technique"], "level": p["level"],
        "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current sources together with a harness of /verif/mc and enumerates the "
              "executions of the real code within the stated bounds; no hook is needed in /repo."}
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import subprocess, sys
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "design.py")])
