#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, plan.py and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
for line in open(os.path.join(ROOT, "bin", "notes.txt")):
    if ": " in line:
        k, v = line.strip().split(": ", 1)
        NOTE[k] = v
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; " + NOTE[i + ".technique"],
            "level": "model_checking",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": NOTE.get(i + ".na", "the check for it isn't built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {
        "guard": "cfg(adhoc_verif)",
        "enable": "RUSTFLAGS=\"--cfg adhoc_verif\" (bin/check.py sets it for the checks of private modules)",
        "source_commits": ["a641d24", "d3305bf", "50deb0b"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: python3 bin/check.py <property> [quick|thorough]; see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
