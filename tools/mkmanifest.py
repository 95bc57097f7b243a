#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, mc/harness.json and the notes below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
harness = json.load(open(os.path.join(H, "mc", "harness.json")))
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if i in harness and not n.get("off"):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --quick" % i,
            "thorough_cmd": "python3 run.py %s --thorough" % i,
            "technique": n.get("technique", "exhaustive bounded enumeration of operation sequences and inputs on the real code, against an independent reference"),
            "level": "model_checking",
            "level_note": n.get("note", "Every execution within the bounds given in the evidence is run on the real code built with sanitizers; nothing is sampled."),
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": n.get("reason", "not checked yet: the harness is still being built")})
json.dump({"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
