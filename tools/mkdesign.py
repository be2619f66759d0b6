"""Assemble DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_head.md").read()
fs = json.load(open(V + "/known_findings.json"))
t += "\n## Findings\n\nRecorded in `known_findings.json`.\n\nOpen (each check prints a KNOWN-FINDING line):\n\n"
for f in fs:
    if f["status"] == "open":
        t += "* **%s** (%s): %s. Not repaired: %s.\n" % (f["id"], f["property"], f["what"], f["why_not_fixed"])
t += "\nRepaired in /repo with a `fix:` commit each (property, commit, what failed before):\n\n"
for f in fs:
    if f["status"] != "open":
        t += "* %s %s %s\n" % (f["property"], f["commit"][:7], f["what"])
res = {}
if os.path.exists(V + "/tools/seed_results.json"):
    res = json.load(open(V + "/tools/seed_results.json"))
t += ("\n## Planted bugs\n\nEach lies in `seeded/<id>`. The check of its property catches it by the clauses "
      "named (with the number of trace lines, quick tier, seed 1).\n\n| planted bug | needs | caught by |\n|---|---|---|\n")
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % n))
    r = res.get(n, {})
    t += "| %s | %s | %s |\n" % (n, m["needs"].replace("|", "/"), r.get("clauses") or "?")
t += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(t)
