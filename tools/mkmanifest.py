#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the registered check classes (run by hand)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
NA = {}
checks = []
for i in range(1, 19):
    pid = f"C{i:02d}"
    if not os.path.exists(f"{ROOT}/vf/checks/{pid.lower()}.py"):
        if pid not in NA:
            NA[pid] = "check under construction"
        continue
    c = importlib.import_module(f"vf.checks.{pid.lower()}").CHECK
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt check.py {pid} --tier quick",
        "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c.technique,
        "level": c.level,
        "level_note": c.level_note,
    })
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "Every check executes the functions in /repo's working tree concolically (vf/engine.py) and decides with z3; "
              "no hooks are needed in /repo. Fixed defects and known findings: known_findings.json."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
