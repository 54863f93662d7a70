#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        line = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(line) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    cmd = f"./run.sh {p['bin']} {p['id']}"
    checks.append({
        "property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p.get("level", "exploration"),
        "level_note": p["level_note"],
    })
bins = sorted({p["bin"] for p in PROPS if p["id"] not in NOT_APPLICABLE})
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh " + " ".join(bins),
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": NOTES,
}
json.dump(manifest, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
