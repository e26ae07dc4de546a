#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/claims.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
THOROUGH = ("C06", "C07")            # checks that look at more cases in the thorough tier
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 run_check.py " + i,
                       "thorough_cmd": ("env VERIF_TIER=thorough " if i in THOROUGH else "") + "python3 run_check.py " + i,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i] if i in NA else "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 run_check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
