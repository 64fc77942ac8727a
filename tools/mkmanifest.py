#!/usr/bin/env python3
"""Writes MANIFEST.json. One line per claimed property: technique and note."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
notes = {}
exec(open(os.path.join(root, "tools", "notes.py")).read(), notes)
N = notes["NOTES"]
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    if p not in N:
        continue
    tech, level, note = N[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh " + p,
        "thorough_cmd": "./check.sh " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech,
        "level": level,
        "level_note": note,
    })
na = [{"property": p, "reason": notes["NA"].get(p, "check not built yet")} for p in props if p not in N]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: the monitors observe the exported API, the emitted bytes and the tools' processes. "
             "'./check.sh ID --replay FILE' runs a recorded violation again.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
