#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA, HOOK_COMMITS
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        files = p["files"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": p.get("hook")},
        }, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    cmd = f"./check.sh {p['crate']} {p['id']}"
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough", "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "cargo feature type-erased-parser (cairo-m-compiler-parser)",
     "enable": "the harness crates under /verif/ws depend on cairo-m-compiler-parser with features = [\"type-erased-parser\"]", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "claimed", len(NA), "not applicable")
