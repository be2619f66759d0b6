"""Driver: the command line scripts (C26), run as a user runs them."""
import builtins
import hashlib
import io
import os
import sys
import rt
from common import fl, Timeout
from u_spectrum import num, make
from u_convolve import gen_new, simple
from u_events import gaxes, gfile, gopts, write
import echidna
from echidna import settings, utilities
from echidna.output import store
import h5py

TOP = os.path.realpath(os.environ.get("VT_CWD", "."))
NONE = {"axes": [], "data": [], "shape": [], "dec": "0", "raw": 0, "rois": []}
ARGS = {"ins": [], "out": "none", "bins": [], "pars": [], "low": [], "up": [],
        "par": "none", "val": "none", "res": "none", "ly": "none",
        "gaus": False, "method": "weight", "dest": "none", "dirs": [],
        "events": [], "axes": [], "name": "none",
        "o": {"fv": "none", "ext": False, "outer": "none", "bipo": False}}
PATHS = ["s.hdf5", "t.hdf5", "d/s.hdf5", "d/u.v2.hdf5", "d.x/s.hdf5",
         "e/f/t.hdf5", "r.v1.hdf5", "d/s_rebin.hdf5"]
DIRS = ["d", "e/f", "d.x", "out"]
EXT = ["root", "ntuple"]


# ------------------------------------------------------------- generation
def text(rng, v):
    """The number v as someone may type it."""
    f = float(v)
    if f < 0:       # argparse takes -1e-3 for an option
        return v if "e" not in v else "%.12f" % f
    return rng.choice([v, repr(f), "%.6f" % f if f == round(f, 6) else v,
                       "+" + v if f > 0 else v, "%e" % f
                       if float("%e" % f) == f else v])


def gspec(rng, path):
    n = gen_new(rng)
    while len(n["cells"]) > 60:
        n = gen_new(rng)
    for x in n["axes"]:         # zero is the edge of a bin
        if x["n"].split("_")[0] not in ("energy", "radial") and \
                rng.random() < 0.5:
            i, w = rng.randint(0, x["b"]), rng.choice([0.5, 1., 2.])
            x["lo"], x["hi"] = repr(-i * w), repr((x["b"] - i) * w)
    return {"path": path, "new": n}


def gcmd(rng, world):
    files = [f["path"] for f in world["files"]]
    p = rng.choice(files)
    ax = [f for f in world["files"] if f["path"] == p][0]["new"]["axes"]
    if rng.random() < 0.03:
        p = "nowhere.hdf5"
    a = {"ins": [p], "dirs": DIRS}
    style = rng.choice(["plain", "plain", "dot", "abs"])
    s = rng.choice(["combine_hdf5", "rebin", "dump_shrink", "dump_scaled",
                    "dump_shifted", "dump_smeared", "dump_smeared_energy",
                    "dump_spectra_root", "dump_spectra_ntuple",
                    "multi_ntuple_spectrum"])
    if s == "combine_hdf5":
        a["ins"] = rng.sample(files, min(len(files), rng.choice([1, 2, 2, 3])))
        if rng.random() < 0.2:
            a["ins"].append(a["ins"][0])
    elif s == "rebin":
        a["bins"] = [rng.choice([d for d in range(1, x["b"] + 1)
                                 if x["b"] % d == 0] or [1]) for x in ax]
        if rng.random() < 0.2:
            a["bins"][rng.randrange(len(ax))] = rng.choice([0, 1, 2, 3, 7])
        if rng.random() < 0.05:
            a["bins"].append(1)
        a["out"] = rng.choice(["none", "none", "none", "out/new.hdf5",
                               "new.v1.hdf5", p])
    elif s == "dump_shrink":
        a["out"] = rng.choice(["none", "none", "none", "out/new.hdf5", p])
        use = rng.sample(ax, rng.randint(1, len(ax)))
        a["pars"] = [x["n"] for x in use]
        which = rng.choice(["low", "up", "both"])
        for x in use:
            w = (num(x["hi"]) - num(x["lo"])) / x["b"]
            i = rng.randint(0, x["b"] - 1)
            j = rng.randint(i + 1, x["b"])
            e = rng.choice([0, 0, 0, 0.3])
            z = int(round(-num(x["lo"]) / w))
            if num(x["lo"]) < 0 <= num(x["hi"]) and rng.random() < 0.6:
                i, j, e = rng.choice([(min(i, z - 1), z, 0),
                                      (z, x["b"], 0)] if z < x["b"] else
                                     [(min(i, z - 1), z, 0)])
            if which != "up":
                a.setdefault("low", []).append(repr(num(x["lo"]) + (i + e) * w))
            if which != "low":
                a.setdefault("up", []).append(repr(num(x["lo"]) + (j - e) * w))
        if rng.random() < 0.08:
            for k in rng.choice([["low"], ["up"], ["low", "up"]]):
                a[k] = (a.get(k, []) + ["1"])[rng.choice([1, 0]):]
        if rng.random() < 0.05:
            a["pars"][-1] = "nothing_mc"
    elif s in ("dump_scaled", "dump_shifted"):
        k = [x["n"] for x in ax if x["n"].split("_")[0] in
             ("energy", "radial")][0]
        x = [x for x in ax if x["n"] == k][0]
        w = (num(x["hi"]) - num(x["lo"])) / x["b"]
        a["par"] = rng.choice([k, k, k, k, k, k, k, k, "nothing_mc", "none"])
        if s == "dump_scaled":
            a["val"] = rng.choice(["1", "1.1", "2.0", "0.5", "0.95", "1.25",
                                   "10", "100", "0.1", "0", "-1", "none",
                                   "1.0000001", "1.0000002", "0.95000001",
                                   "1234567"])
            a["dest"] = rng.choice(["none", "none", "d", "out", "e/f", "zz"])
        else:
            a["val"] = rng.choice(["0", "none"] + 3 * [
                repr(w * rng.randint(-3, 3)), repr(round(w * 0.7, 3)),
                repr(-round(w * 1.3, 3))])
    elif s.startswith("dump_smeared"):
        a["res"] = rng.choice(["none", "0.05", "0.1", "0.3", "0.2", "1.5",
                               "0.1234567"])
        a["method"] = rng.choice(["weight"] * 6 + ["random", "other"])
        if s == "dump_smeared_energy":
            a["ly"] = rng.choice(["none", "200", "50", "123.5", "10", "-2",
                                      "123.45678"])
            a["gaus"] = rng.random() < 0.5
            a["dest"] = rng.choice(["none", "none", "d", "out", "e/f", "zz"])
    else:
        kind = "root" if s.endswith("root") else "ntuple"
        a["axes"] = gaxes(rng, rng.choice(["mc", "reco", "mix"]))
        a["o"] = gopts(rng)
        a["o"]["ext"] = False
        a["dest"] = rng.choice([".", ".", "d", "out", "e/f"])
        n = rng.choice([1, 1, 2, 3]) if s == "multi_ntuple_spectrum" else \
            rng.choice([1, 1, 1, 2, 3])
        a["events"] = [gfile(rng, kind, rng.choice([0, 1, 3, 6]))
                       for _ in range(n)]
        a["name"] = "none"
        if s == "multi_ntuple_spectrum":
            a["ins"] = [rng.choice(["ev", "in/data.x", "in/ev"])]
            a["name"] = rng.choice(["none", "Te130_0n2b", "bkg.v2", "U"])
        else:
            at = rng.choice(["", "", "in/", "in/data.x/"])
            a["ins"] = ["%s%s%d.%s" % (
                at, rng.choice(["ev", "run_", "Te.r"]), i,
                "root" if kind == "root" else "ntuple.root")
                for i in range(n)]
    return {"script": s, "a": a, "style": style, "slash": rng.random() < 0.5,
            "opt": rng.random() < 0.5, "nums": rng.randint(0, 10 ** 6)}


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        files = [gspec(rng, p) for p in
                 rng.sample(PATHS, rng.choice([1, 2, 3]))]
        if rng.random() < 0.6:      # the same dimensions
            for f in files[1:]:
                new = files[0]["new"]
                cells = list(new["cells"])
                rng.shuffle(cells)
                f["new"] = dict(new, cells=cells,
                                dec=repr(round(rng.uniform(1, 9), 1)))
        world = {"op": "world", "files": files}
        seqs.append([world] + [dict(gcmd(rng, world), op="run")
                               for _ in range(rng.randint(1, 3))])
    return seqs


# -------------------------------------------------------------- execution
def build(new):
    s, _ = make(new["axes"], new["dec"], raw=new.get("raw", 0))
    for c, v in enumerate(new["cells"]):
        if num(v) == 0:
            continue
        kw, r = {}, c
        for a in reversed(new["axes"]):
            j = r % a["b"]
            r //= a["b"]
            lo, hi = num(a["lo"]), num(a["hi"])
            kw[a["n"]] = lo + (j + 0.5) * (hi - lo) / a["b"]
        s.fill(weight=num(v), **kw)
    return s


def look(top):
    """Every file below top."""
    found = []
    for d, _, names in os.walk(top):
        for n in names:
            p = os.path.join(d, n)
            e = {"path": os.path.relpath(p, top), "sp": NONE, "sum": ""}
            if n.endswith(".hdf5"):
                try:
                    e["sp"] = simple(store.load(p))
                except Exception as x:
                    e["sum"] = "unreadable: " + type(x).__name__
            else:
                with open(p, "rb") as f:
                    e["sum"] = hashlib.sha1(f.read()).hexdigest()
            found.append(e)
    return sorted(found, key=lambda e: e["path"])


def put(path):
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    return path


def argv(op, a):
    import random
    rng = random.Random(op.get("nums", 0))
    t = lambda v: text(rng, v)

    def path(p):
        return {"dot": "./" + p, "abs": os.path.abspath(p)}.get(
            op.get("style"), p)
    slash = lambda p: p + "/" if op.get("slash") and p[-1:] != "/" else p
    s, v = op["script"], []

    def opt(flag, value, f=str):
        if value not in ("none", []):
            v.append(flag)
            v.extend([f(x) for x in value] if isinstance(value, list)
                     else [f(value)])
    ins = [path(p) for p in a["ins"]]
    dest = a["dest"] if a["dest"] == "none" else slash(a["dest"])
    if s == "combine_hdf5":
        opt("-f", ins)
    elif s in ("rebin", "dump_shrink"):
        opt("-i", ins)
        opt("-o", a["out"])
        opt("-b", a["bins"])
        opt("-p", a["pars"])
        opt("-l", a["low"], t)
        opt("-u", a["up"], t)
    elif s in ("dump_scaled", "dump_shifted"):
        opt("-p" if s == "dump_scaled" else "-d", a["par"])
        opt("-s", a["val"], t)
        opt("-f", ins)
        opt("-d", dest)
    elif s.startswith("dump_smeared"):
        if a["method"] != "weight" or op.get("opt"):
            opt("-m", a["method"])
        opt("-r", a["res"], t)
        opt("-l", a["ly"], t)
        opt("-d", dest)
        if a["gaus"]:
            v.append("-g")
        v.extend(ins)
    else:
        if not (a["dest"] == "." and op.get("opt")):
            opt("-s", dest)
        opt("-c", "config.yml")
        opt("-v", a["o"]["fv"], t)
        opt("-o", a["o"]["outer"], t)
        if a["o"]["bipo"]:
            v.append("--bipo")
        elif op.get("opt"):
            v.append("--no-bipo")
        if s == "multi_ntuple_spectrum":
            opt("-p", slash(ins[0]))
            if a["name"] != BASE(a["ins"][0]) or op.get("opt"):
                opt("-n", a["name"])
        elif len(ins) == 1 and op.get("opt"):
            opt("-f", ins)
        else:
            with open("list.txt", "w") as f:
                f.write("".join(p + "\n" for p in ins))
            opt("-r", "list.txt")
    return v


def BASE(p):
    return p[p.rfind("/") + 1:]


def start(script, args, turn=0):
    """python SCRIPT ARGS; directories are listed from their turn-th entry"""
    path = os.path.join(rt.REPO, "echidna", "scripts", script + ".py")
    old = sys.argv, sys.stdout, sys.stderr, builtins.input
    real = os.listdir

    def listdir(*a):
        names = sorted(real(*a))
        return names[turn % max(1, len(names)):] + \
            names[:turn % max(1, len(names))]
    os.listdir = listdir
    sys.argv = [path] + args
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    builtins.input = lambda *a: ""
    utilities.logger_set = True     # leave the interpreter's logging alone
    try:
        code = compile(rt.load_source(path), path, "exec")
        exec(code, {"__name__": "__main__", "__file__": path})
        return ""
    except Timeout:
        raise
    except SystemExit:
        return "SystemExit"
    except Exception as e:
        if os.environ.get("VT_SHOW"):
            import traceback
            traceback.print_exc(file=sys.__stderr__)
        return type(e).__name__
    finally:
        sys.argv, sys.stdout, sys.stderr, builtins.input = old
        os.listdir = real


def run(seq, rec):
    top = os.path.join(TOP, "w%d" % rec.seq)
    os.makedirs(top)
    os.chdir(top)
    settings.user_profile["log_save_path"] = put(TOP + "/logs/x")[:-1]
    for d in DIRS:
        os.makedirs(d)
    for op in seq:
        if op["op"] == "world":
            for f in op["files"]:
                store.dump(put(f["path"]), build(f["new"]))
            continue
        a = dict(ARGS, **op["a"])
        if a["events"]:
            for i, e in enumerate(a["events"]):
                p = a["ins"][0] + "/part%d.root" % i \
                    if op["script"] == "multi_ntuple_spectrum" else a["ins"][i]
                os.rename(write(e, 0), put(p))
            with open("config.yml", "w") as f:
                f.write("parameters:\n" + "".join(
                    "  %s:\n    low: %r\n    high: %r\n    bins: %d\n"
                    % (x["n"], float(x["lo"]), float(x["hi"]), x["b"])
                    for x in a["axes"]))
            if op["script"] == "multi_ntuple_spectrum" and a["name"] == "none":
                a["name"] = BASE(a["ins"][0])
        args = argv(op, a)
        before = look(top)
        del h5py.escaped[:]
        err = start(op["script"], args, op.get("nums", 0))
        os.chdir(top)
        a = dict(a)
        for k in ("val", "res", "ly"):
            if a[k] != "none":
                a[k] = fl(num(a[k]))
        for k in ("low", "up"):
            a[k] = [fl(num(x)) for x in a[k]]
        rec.event(op="run", script=op["script"], a=a, argv=args, err=err,
                  before=before, after=look(top), escaped=list(h5py.escaped))
        for p in ["config.yml", "list.txt"]:
            if os.path.exists(p):
                os.remove(p)
        for p in a["ins"] if a["events"] else []:
            for f in [p] if os.path.isfile(p) else \
                    [p + "/" + n for n in os.listdir(p)]:
                os.remove(f)
