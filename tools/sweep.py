"""Development: run each planted bug's check on a copy of /repo and note which
clauses catch it (tools/seed_results.json).  Not used by any check."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "tools", "seed_results.json")


def one(name):
    d = os.path.join(V, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="vtsw_")
    try:
        r = os.path.join(t, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
        os.makedirs(os.path.join(t, "dev"))
        env = dict(os.environ, VT_REPO=r, VT_DEV=os.path.join(t, "dev"), VT_OUT=os.path.join(t, "out"),
                   VT_WORKERS="2", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        p = subprocess.run([sys.executable, "check.py", prop], cwd=V, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"broken clauses: (.*)", p.stdout)
        return name, {"property": prop, "exit": p.returncode,
                      "clauses": m.group(1) if m else ""}
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    res = json.load(open(OUT)) if sys.argv[1:] and os.path.exists(OUT) else {}
    with cf.ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(one, names):
            res[n] = r
            print(n, r["exit"], r["clauses"], flush=True)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
