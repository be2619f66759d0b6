#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Decides one property: model-checks its TLA+ specification, turns the
specification's behaviours and seeded random operation sequences into runs of
the real code in /repo, and has TLC judge the recorded traces.
Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: the machinery failed.
"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vtconf import CHECKS, UNITS        # noqa: E402

REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
WORKERS = int(os.environ.get("VT_WORKERS", "7"))
# development only (tools/mutate.py): reuse what does not depend on /repo, and
# write replays and evidence elsewhere
DEV = os.environ.get("VT_DEV")
OUT = os.environ.get("VT_OUT", HERE)


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def build_kernel(work):
    cls = os.path.join(DEV or work, "cls")
    if DEV and os.path.exists(os.path.join(cls, "done")):
        return cls
    os.makedirs(cls, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", CP.split(":")[0], "-d", cls,
                        os.path.join(HERE, "java", "RealK.java"),
                        os.path.join(HERE, "java", "NdArray.java")],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stderr)
    if DEV:
        open(os.path.join(cls, "done"), "w").close()
    return cls


def pretranslate(work):
    """Translate echidna's modules in parallel with CPython's lib2to3 (the
    drivers fall back to doing it themselves)."""
    cache = os.path.join(DEV or work, "py3")
    os.makedirs(cache, exist_ok=True)
    code = ("import sys,os,hashlib,io; sys.path.insert(0,%r); import rt\n"
            "for p in sys.argv[1:]:\n"
            "    try:\n"
            "        s=io.open(p,encoding='utf-8').read()\n"
            "        k=os.path.join(%r,hashlib.sha1(s.encode()).hexdigest()+'.py3')\n"
            "        if os.path.exists(k): continue\n"
            "        o=rt._translate(s,p)\n"
            "        io.open(k,'w',encoding='utf-8').write(o)\n"
            "    except Exception as e: pass\n"
            % (os.path.join(HERE, "drv"), cache))
    files = [f for f in glob.glob(REPO + "/echidna/**/*.py", recursive=True)
             if not re.search(r"/(test|tutorials|scripts)/|plot|root_style", f)]
    files.sort(key=os.path.getsize, reverse=True)
    groups = [files[i::6] for i in range(6)]
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", code] + g,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL) for g in groups if g]
    for p in ps:
        p.wait()
    return cache


def tlc(work, cls, module, cfg, env=None, timeout=800, workers="1", extra=(),
        heap="3g"):
    """Run TLC on spec/<module>.tla in a private copy of the spec folder."""
    d = tempfile.mkdtemp(dir=work)
    for f in glob.glob(os.path.join(HERE, "spec", "*.tla")):
        shutil.copy(f, d)
    shutil.copy(os.path.join(HERE, "spec", cfg), d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Xmx" + heap, "-Xss256m",
           "-Djava.io.tmpdir=" + d, "-cp", CP + ":" + cls,
           "tlc2.TLC", "-workers", workers, "-metadir", os.path.join(d, "m"),
           "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    out = r.stdout
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out


def errs(out):
    i = out.find("Error:")
    return out[i if i >= 0 else -3000:][:5000]


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def model_check(work, cls, mc, tier):
    """Exhaustively check one design configuration; returns generated/distinct
    states and the behaviours it printed."""
    module, cfg = mc["module"], mc["cfg"].get(tier, mc["cfg"]["quick"])
    memo = os.path.join(DEV, "mc_%s.json" % cfg) if DEV else None
    if memo and os.path.exists(memo):
        return json.load(open(memo))
    rc, out = tlc(work, cls, module, cfg, timeout=mc.get("timeout", 800),
                  workers=str(mc.get("workers", 1 if tier == "quick" else 4)),
                  extra=mc.get("extra", ()))
    if rc != 0 or "No error has been found" not in out:
        if "Invariant" in out and "is violated" in out or \
                "is violated" in out:
            raise Broken("the design violates its own invariant in %s:\n%s"
                         % (module, errs(out)))
        raise Broken("TLC failed on %s:\n%s" % (module, errs(out)))
    seqs = []
    for line in out.splitlines():
        if line.startswith('"['):
            seqs.append(json.loads(json.loads(line)))
    gen, dist = stats(out)
    res = {"module": module, "cfg": cfg, "generated": gen, "distinct": dist,
           "seqs": seqs}
    if memo:
        json.dump(res, open(memo + ".%d" % os.getpid(), "w"))
        os.replace(memo + ".%d" % os.getpid(), memo)
    return res


def run_driver(work, unit, profile, seed, n, seqs, tag, cache):
    sf = os.path.join(work, "seqs_%s.json" % tag)
    tf = os.path.join(work, "trace_%s.ndjson" % tag)
    mf = os.path.join(work, "meta_%s.json" % tag)
    json.dump(seqs, open(sf, "w"))
    e = dict(os.environ)
    e.update({"VT_REPO": REPO, "VT_PYCACHE": cache, "PYTHONHASHSEED": "0",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
              "VT_SCRATCH": work, "PYTHONDONTWRITEBYTECODE": "1"})
    e.pop("PYTHONPATH", None)
    d = os.path.join(work, "cwd_" + tag)
    os.makedirs(d, exist_ok=True)
    e["VT_CWD"] = d
    e["HOME"] = d
    try:
        r = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "drv",
                                                             "main.py"),
                            unit, profile, str(seed), str(n), sf, tf, mf],
                           env=e, capture_output=True, text=True, timeout=850,
                           cwd=d)
    except subprocess.TimeoutExpired:
        raise Broken("driver timed out")
    if not os.path.exists(mf):
        raise Broken("driver died: " + r.stderr[-3000:])
    meta = json.load(open(mf))
    return tf, meta


BAD = re.compile(r'^<<"BAD", (\d+), "([^"]*)"(?:, (.*))?>>$')


def validate(work, cls, trace_module, tf):
    nlines = sum(1 for _ in open(tf))
    if nlines == 0:
        return [], 0
    rc, out = tlc(work, cls, trace_module, trace_module + ".cfg",
                  env={"VT_TRACE": tf}, timeout=850)
    gen, dist = stats(out)
    bad = []
    # TLC wraps long tuples over several lines
    joined = re.sub(r"\n\s+", " ", out)
    for line in joined.splitlines():
        m = BAD.match(line.strip().replace("<< ", "<<").replace(" >>", ">>"))
        if m:
            bad.append((int(m.group(1)), m.group(2), m.group(3) or ""))
    if rc != 0 and 0 < dist <= nlines and ("evaluat" in out or
                                           "exception" in out) and \
            "OutOfMemory" not in out and "StackOverflow" not in out:
        # an observation outside anything the specification describes
        bad.append((dist, "*.outside_the_specification", errs(out)))
        return bad, nlines
    if rc != 0 or dist != nlines + 1:
        raise Broken("trace validation of %s failed (%d lines, %d states):\n%s"
                     % (trace_module, nlines, dist, errs(out)))
    return bad, nlines


def known_findings():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vt_%s_" % a.prop)
    try:
        return decide(a, chk, seed, work, t0)
    except Broken as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)


def decide(a, chk, seed, work, t0):
    tier = a.tier
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        fk = ex.submit(build_kernel, work)
        fc = ex.submit(pretranslate, work)
        cls = fk.result()
        mcs = [] if a.replay else chk["mc"]
        fm = [ex.submit(model_check, work, cls, mc, tier) for mc in mcs]
        cache = fc.result()
        jobs = []       # (tag, unit, profile, seed, n, seqs)
        if a.replay:
            rp = json.load(open(a.replay))
            jobs = [("r0", rp["unit"], rp["profile"], 0, 0, [rp["seq"]])]
        else:
            for ri, (unit, profile, nq, nt, chunks) in enumerate(chk["runs"]):
                n = nq if tier == "quick" else nt
                if DEV and "VT_FRAC" in os.environ:
                    n = max(chunks, int(n * float(os.environ["VT_FRAC"])))
                for c in range(chunks if tier == "quick" else max(chunks, 7)):
                    k = chunks if tier == "quick" else max(chunks, 7)
                    m = n // k + (1 if c < n % k else 0)
                    jobs.append(("g%d_%d" % (ri, c), unit, profile,
                                 seed * 1000 + c, m, []))

        def one(job):
            tag, unit, profile, sd, n, seqs = job
            tf, meta = run_driver(work, unit, profile, sd, n, seqs, tag, cache)
            if meta["import_error"]:
                return job, meta, [(0, a.prop + ".load", "")], 0, tf
            bad, lines = validate(work, cls, UNITS[unit]["trace"], tf)
            return job, meta, bad, lines, tf

        futs = [ex.submit(one, j) for j in jobs]
        mres = [f.result() for f in fm]
        # behaviours of the model, replayed on the code
        seq_jobs = []
        for mc, r in zip(mcs, mres):
            if r["seqs"] and mc.get("unit"):
                cap = mc.get("cap", {}).get(tier)
                seqs = r["seqs"]
                if cap and len(seqs) > cap:
                    step = len(seqs) / float(cap)
                    off = seed % max(1, int(step))
                    seqs = [seqs[min(len(seqs) - 1, int(i * step) + off)]
                            for i in range(cap)]
                r["used"] = len(seqs)
                k = min(4, max(1, len(seqs) // 50))
                for c in range(k):
                    seq_jobs.append(("s%s_%d" % (mc["module"], c), mc["unit"],
                                     mc.get("profile", "spec"), seed, 0,
                                     seqs[c::k]))
        futs += [ex.submit(one, j) for j in seq_jobs]
        results = [f.result() for f in futs]

    kf = [k for k in known_findings() if k["property"] == a.prop and
          k.get("status") == "open"]
    kf_hit, violations = {}, []
    traces = lines_total = 0
    samples, calls = [], {}
    for job, meta, bad, lines, tf in results:
        traces += meta["sequences"]
        lines_total += lines
        for k, v in meta["calls"].items():
            calls[k] = calls.get(k, 0) + v
        if meta["seqs"] and len(samples) < 3:
            samples.append(meta["seqs"][len(meta["seqs"]) // 2])
        if not bad:
            continue
        evs = [json.loads(x) for x in open(tf)]
        for line, clause, detail in bad:
            props = clause.split(".")[0].split("+")
            ev = evs[line - 1] if line else {}
            if a.prop not in props and props[0] != "*":
                continue
            hit = None
            for k in kf:
                if clause in k["clauses"] and k["tag"] == ev.get("tag", ""):
                    hit = k
            if hit:
                kf_hit[hit["id"]] = hit
                continue
            seq = meta["seqs"][ev["sq"]] if ev else None
            violations.append((clause, ev, seq, job, meta))
    for k in kf_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    rc = 0
    if violations:
        rc = 1
        clause, ev, seq, job, meta = min(
            violations, key=lambda v: len(json.dumps(v[2])))
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s_%d.json" % (a.prop, tier, seed))
        json.dump({"property": a.prop, "clause": clause, "event": ev,
                   "unit": job[1], "profile": job[2], "seq": seq,
                   "import_error": meta["import_error"]},
                  open(path, "w"), indent=1)
        names = {}
        for v in violations:
            names[v[0]] = names.get(v[0], 0) + 1
        print("broken clauses: " + ", ".join("%s x%d" % x for x in
                                             sorted(names.items())))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    if not a.replay:
        if lines_total == 0 and rc == 0:
            raise Broken("nothing was validated")
        ev = {"property": a.prop, "tier": tier, "seed": seed,
              "level": "model_checking",
              "coverage": {
                  "states": sum(r["distinct"] for r in mres),
                  "transitions": sum(r["generated"] for r in mres),
                  "traces_validated_against_impl": traces,
                  "trace_lines_judged": lines_total,
                  "calls": calls,
                  "models": [{"module": r["module"], "cfg": r["cfg"],
                              "distinct_states": r["distinct"],
                              "behaviours_printed": len(r["seqs"]),
                              "behaviours_replayed": r.get("used", 0)}
                             for r in mres],
                  "samples": samples or [{"note": "no sequence ran"}]},
              "assumptions": chk.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2),
              "violations": len(violations)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", a.prop + ".json"),
                           "w"), indent=1)
    print("%s %s: %d sequences, %d trace lines, %.1fs, %s" % (
        a.prop, tier, traces, lines_total, time.time() - t0,
        "ok" if rc == 0 else "%d violation(s)" % len(violations)))
    return rc


if __name__ == "__main__":
    sys.exit(main())
