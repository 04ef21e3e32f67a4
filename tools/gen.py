#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import P, BASE_NOTE
checks, na = [], []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
        have = os.path.exists(os.path.join(H, "checks", p["id"].lower() + ".py"))
        if p["na"] or not have:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
            continue
        c = f"python3 check.py --property {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough",
                       "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"] or BASE_NOTE})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Checks analyse /repo's sources only; /repo is not built, imported or executed. No hooks. Generated by tools/gen.py."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
