#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the one table below. Run it after editing the table."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from table import PROPS, NA, NOTES  # noqa: E402

TECH = "deterministic simulation with fault injection"


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        lines.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
            continue
        if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "its check is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s quick" % p["id"],
                       "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": TECH + ": " + p["how"], "level": p.get("level", "exploration"),
                       "level_note": p["note"]})
    with open(V + "/properties.jsonl", "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    doc = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python check.py --selftest",
           "checks": checks, "not_applicable": na, "notes": NOTES}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
