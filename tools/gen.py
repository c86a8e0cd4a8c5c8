"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import NOTES, PROPS  # noqa

TECH = "deterministic simulation with fault injection"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        row = {k: p[k] for k in ("id", "title", "statement")}
        row["quantifier"] = {"over": p["over"], "text": p["text"]}
        row["why_tests_cant"] = p["why"]
        row["anchors"] = {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        }
        f.write(json.dumps(row) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "technique": "%s: %s" % (TECH, p["tech"]),
            "level": "exploration",
            "level_note": p["note"],
        })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": NOTES,
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
