#!/usr/bin/env python3
"""mkseed.py SRC.py [ID...]: (re)build seeded/<id>/ from tools/seedsrc and
confirm each: patch applies, builds, stable tests pass, demo 0 / nonzero; then
run the property's quick check on it.  Leaves /repo as it was."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = {}
exec(open(sys.argv[1]).read(), src)
want = sys.argv[2:]
nocheck = os.environ.get("NOCHECK")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    sh("bash /opt/vp/test.sh /tmp/vt_o.json")
    r = json.load(open("/tmp/vt_o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("tests") or base.get("passed")
    passed = r.get("passed", [])
    return all(n in passed for n in names), (len(passed), len(names))


assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
for s in src["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = os.path.join(HERE, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        ok = True
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), "in", f)
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        sh("git -C /repo checkout -- .")
        demo = ("import os, sys\nsys.path.insert(0, os.path.dirname(os.path."
                "abspath(__file__)))\nimport hook  # noqa\n" + s["demo"].lstrip("\n"))
        open(d + "/demo.py", "w").write(demo)
        shutil.copy(HERE + "/tools/demo_support/hook.py", d)
        for x in s.get("shims", ["scipy"]):
            if x == "scipy":
                shutil.copytree(HERE + "/drv/shims/site/scipy",
                                d + "/shims/site/scipy")
            else:
                q = HERE + "/drv/shims/" + x
                t = d + "/shims/" + x
                os.makedirs(os.path.dirname(t), exist_ok=True)
                (shutil.copytree if os.path.isdir(q) else shutil.copy)(q, t)
        for r_, ds, fs in os.walk(d):
            if "__pycache__" in ds:
                shutil.rmtree(r_ + "/__pycache__")
        open(d + "/demo.sh", "w").write(
            "#!/bin/bash\n# run in the repository's root\n"
            "export PYTHONDONTWRITEBYTECODE=1\n"
            "exec /opt/venv/bin/python -W ignore "
            "\"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        a = sh("git -C /repo apply %s/patch.diff" % d)
        b = sh("bash /opt/vp/build.sh")
        st, nums = stable()
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        msg = "%-28s apply=%d build=%d tests=%s demo %d/%d" % (
            s["id"], a.returncode, b.returncode, nums, r0.returncode,
            r1.returncode)
        good = (a.returncode == 0 and b.returncode == 0 and st and
                r0.returncode == 0 and r1.returncode != 0)
        if r0.returncode:
            msg += "\n" + (r0.stdout + r0.stderr)[-800:]
        if r1.returncode and "-v" in os.environ.get("SEEDV", ""):
            msg += "\n" + (r1.stdout + r1.stderr)[-400:]
        if not nocheck:
            c = sh("python3 check.py %s" % s["property"], cwd=HERE)
            msg += "  check=%d %s" % (c.returncode, "" if c.returncode == 1
                                      else "MISSED " + c.stdout[-300:])
            for l in c.stdout.splitlines():
                if l.startswith("broken"):
                    msg += "\n      " + l
        print(("" if good else "NOT GOOD ") + msg, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
