#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "echidna/core/"
exec(open(os.path.join(os.path.dirname(__file__), "props_src.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
