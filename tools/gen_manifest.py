#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PROPS:
        na.append({"property": i, "reason": "its specification module is still being written"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run_check.py %s quick" % i,
        "thorough_cmd": "python3 run_check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": plan.TECHNIQUE.get(i, plan.TECHNIQUE["*"]),
        "level": "model_checking",
        "level_note": plan.NOTE.get(i, plan.NOTE["*"]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "--cfg generic_btree_verif (small node and text constants), --cfg generic_btree_verif_gap (access to the gap buffer)",
        "enable": "RUSTFLAGS=\"--cfg generic_btree_verif\" resp. \"--cfg generic_btree_verif_gap\", set by run_check.py; the shipped configuration is checked too",
        "source_commits": ["3f33488f06d1faf157bac658c7f8c26c71d87cca"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC. Every check rebuilds the harness from /repo's working tree.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
