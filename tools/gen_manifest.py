#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that has a module in checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing (generated histories/inputs, explicit oracle, shrinking) with Hypothesis"
NOTE = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)["id"]
        if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p in NOTE:
            checks.append({
                "property": p,
                "quick_cmd": f"./run.py {p} --tier quick",
                "thorough_cmd": f"./run.py {p} --tier thorough",
                "technique": NOTE[p][0] + "; " + TECH,
                "level": "exploration",
                "level_note": NOTE[p][1]})
        else:
            na.append({"property": p, "reason": "no check built yet (the technique applies; work in progress)"})
    m = {"version": 1, "setup_cmd": "mkdir -p evidence/replays", "checks": checks,
         "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
