#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import checks' && g++ --version >/dev/null && mkdir -p build evidence",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check compiles its harness together with the library from /repo's working tree (no hooks are needed) and explores a bounded space exhaustively on the real code. ./check ID --replay FILE reruns one recorded case.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "explicit-state enumeration of a reference model, every trace replayed on the real code"),
            "level": "model_checking",
            "level_note": "Holds for every execution within the bounds (%s). Explored: %s Trusts the reference model and the sandbox's compiler and runtime." % (c["bounds"], c["explored"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
