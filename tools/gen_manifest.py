#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {
        "guard": "everscale_verif (rustc --cfg)",
        "enable": "RUSTFLAGS='--cfg everscale_verif' cargo build, done by run.py for the harness crate",
        "source_commits": open(os.path.join(ROOT, "tools", "hook_commits.txt")).read().split(),
    },
    "checks": [], "not_applicable": [],
}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"python3 run.py {p} quick",
            "thorough_cmd": f"python3 run.py {p} thorough",
            "technique": "TLA+ specification checked with TLC, bound to the code by replaying TLC-generated behaviours and by TLC trace validation",
            "level": c["level"],
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "the check is not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
