#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS
NA = {}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CHECKS:
        continue
    k = CHECKS[p]
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": k["technique"], "level": "model_checking", "level_note": k["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(sweep_verif)", "enable": "RUSTFLAGS='--cfg sweep_verif --cfg sweep_verif_n=\"4\"' (node capacity 4 or 8 as the checks use it; capacity 64 is built without the hook)", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k not in CHECKS],
     "notes": "Defects found and repaired are listed in known_findings.txt; DESIGN.md describes spaces, oracles and bounds."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
