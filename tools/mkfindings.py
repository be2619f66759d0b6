#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the open findings below, and one "fixed"
entry per "fix:" commit of /repo (the property comes from FIXED)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "28e6743"

OPEN = [
    {"property": "C10", "id": "KF1", "status": "open",
     "clauses": ["C10.rejected_valid"],
     "tag": "baker_cousins_up per bin, a bin with observed > expected",
     "what": "BakerCousinsChiUp(per_bin=True).compute_statistic raises "
             "ValueError whenever a bin has more observed than expected "
             "counts: _get_stats does not skip the bins _compute skips, so "
             "its own sum check fails",
     "why_not_fixed": "the file is called test_statistic.py, which the rules "
                      "for commits in /repo count as a test file; the repair "
                      "is to append 0 for those bins in "
                      "BakerCousinsChiUp._get_stats"},
    {"property": "C10", "id": "KF2", "status": "open",
     "clauses": ["C10.perbin_value", "C10.perbin_sum", "C10.total_value"],
     "tag": "integer arrays with an empty bin, result not finite",
     "what": "BakerCousinsLL, Neyman and Pearson write the floor 1e-34 into "
             "the caller's array; in an integer array it becomes 0, so an "
             "empty bin gives an infinite or undefined statistic",
     "why_not_fixed": "same file; the repair is to work on float copies as "
                      "BakerCousinsChi does"},
]

# start of the commit subject (after "fix: ") -> property
FIXED = {}


def load_fixed():
    for line in open(os.path.join(HERE, "tools", "fixed.txt")):
        if line.strip():
            prop, text = line.rstrip("\n").split(" ", 1)
            FIXED[text] = prop


def main():
    load_fixed()
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse",
                          "--format=%h %s", BASE + "..HEAD"],
                         capture_output=True, text=True).stdout
    out = list(OPEN)
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix: ") or s[5:] in SKIP:
            continue
        if s[5:] not in FIXED:
            raise SystemExit("no property for: " + s[5:])
        p = FIXED[s[5:]]
        out.append({"property": p, "status": "fixed", "commit": h,
                    "what": s[5:],
                    "line": "fixed: property=%s %s %s" % (p, h, s[5:])})
    json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"),
              indent=1)
    print(len(out), "findings")


SKIP = {"per-bin BakerCousinsChiUp skips the bins the total skips",
        "test statistics no longer modify the caller's arrays (and accept "
        "integers)"}          # reverted: see OPEN
if __name__ == "__main__":
    main()
