#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from properties import PROPS, NOT_APPLICABLE

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
checks = [
    {
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["level_note"],
    }
    for p in PROPS
]
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "hooks": {"guard": "cfg(fledger_verif)", "enable": "RUSTFLAGS='--cfg fledger_verif' (env.sh)", "source_commits": ["ffc93ba44a024e3f973c3d693560291244aaf269", "9e5590e473d265a730074565863f7df4fd29925f"]},
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
