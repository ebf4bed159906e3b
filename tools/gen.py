#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS, NOT_APPLICABLE

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 sa/dump.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "All checks are static: they read the MIR rustc builds from /repo's current sources. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
from fixed import FIXED
from known import KNOWN
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": ["fixed: property=%s %s %s" % (p, c, w) for c, p, w in FIXED]}, f, indent=1)
    f.write("\n")
