#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {"version": 1, "setup_cmd": "sh ./setup.sh",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
       "not_applicable": [],
       "notes": "TLA+ specification in spec/, checked with TLC; Go harness in harness/ executes programs on /repo. See DESIGN.md."}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
