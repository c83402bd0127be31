#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import properties  # noqa: E402

checks = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in properties.PROPERTIES:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["bound"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 mc/run.py {} --tier quick".format(p["id"]),
            "thorough_cmd": "python3 mc/run.py {} --tier thorough".format(
                p["id"]),
            "technique": p["technique"], "level": p["level"],
            "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": properties.SETUP, "checks": checks,
        "not_applicable": properties.NOT_APPLICABLE,
        "notes": properties.NOTES}, f, indent=1)
    f.write("\n")
