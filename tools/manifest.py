#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run after editing it)."""

import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
from properties import NOT_APPLICABLE, PROPS  # noqa: E402

V = Path(__file__).resolve().parent.parent
LEVEL = "exploration"
with (V / "properties.jsonl").open("w") as f:
    for p in PROPS:
        row = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["tests"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }
        assert len(row["title"]) <= 80, row["title"]
        f.write(json.dumps(row, ensure_ascii=False) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
checks = [
    {
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": LEVEL,
        "level_note": p["note"],
    }
    for p in PROPS
    if p["id"] not in na
]
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: monitors observe the public surface (stage interface, returned models, written files) of "
    "the working tree, imported live. /repo carries only 'fix:' commits, listed in known_findings.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
