#!/usr/bin/env python3
"""Writes MANIFEST.json from vtconf.CHECKS and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vtconf import CHECKS, NOTES, NOT_APPLICABLE   # noqa: E402
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC; bound to the "
              "code by replaying the specification's behaviours and seeded "
              "random operation sequences in the real code (drv/) and having "
              "TLC judge the recorded traces.  See DESIGN.md."}
for p in props:
    if p in CHECKS:
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "TLA+ specification (TLC), trace conformance of the "
                         "real code",
            "level": "model_checking",
            "level_note": NOTES.get(p, "") or
            "The specification is model-checked exhaustively at small bounds; "
            "the code is bound to it by trace conformance on all printed "
            "model behaviours (sampled in quick) and seeded random sequences. "
            "Trusted: TLC, java/RealK.java, the drivers' projections, the "
            "Python 2 to 3 translation by lib2to3, PyPy and numpy."})
    else:
        m["not_applicable"].append({"property": p, "reason":
                                    NOT_APPLICABLE.get(p, "check not built "
                                                       "yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
