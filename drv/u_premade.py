"""Driver: names of pre-convolved spectra, and fits that load them (C21)."""
import json
import os
import numpy
from common import fl, tx, attempt, flat
from u_spectrum import num, axes_of
from u_fit import build, global_config, recording, Log, Probe, STATS
from echidna.core import parameter
from echidna.fit.fit import Fit
from echidna.output import store

ENDS = ("ly", "rs", "sc", "sh")
CLS = {"smear": parameter.ResolutionParameter,
       "scale": parameter.ScaleParameter, "shift": parameter.ShiftParameter}
UKIND = {"smear": "res", "scale": "scale", "shift": "shift"}


# ------------------------------------------------------------- generation
DIMS = ["energy_mc", "radial3_mc", "energy", "time_truth", "radial3"]
VALUES = {"smear": ["200", "190", "20.5", "100", "20", "0.05", "5.5", "5",
                    "0.1", "10", "1000", "0.0625", "1e-05"],
          "scale": ["1", "10", "1.05", "0.9", "100", "1.5", "1.1", "11",
                    "1e-10", "1.25e-10", "0.5"],
          "shift": ["0", "0.1", "-0.5", "10", "1", "-10", "-1", "100", "0.3",
                    "0.30000000000000004", "1e-10", "1e-100", "2.5e-07"]}
WORDS = ["Te130", "mc", "internal", "scintillators", "others", "misc", "fly",
         "2015", "flush", "B8.v2", "rs", "a"]
BASES = [["data"], ["pre", "made"], ["energy_mc.files"], ["d", "energy_mc"],
         ["my_energy", "x"], ["x.hdf5", "radial3_mc"]]


def gp(rng, dim, kind):
    return {"dim": dim, "kind": kind, "val": rng.choice(VALUES[kind]),
            "as": rng.choice(["float", "numpy", "float", "plain"])}


def gpars(rng, n):
    few = rng.sample(DIMS, rng.choice([1, 2, 2, 3]))
    every = [(d, k) for d in few for k in ("smear", "scale", "shift")]
    out = [gp(rng, d, k) for d, k in rng.sample(every, min(n, len(every)))]
    if rng.random() < 0.6:
        out.sort(key=lambda p: few.index(p["dim"]))
    return out


def word(t):
    return {"t": t, "ext": ext(t)}


def ext(t):
    if t[-2:] in ENDS:
        try:
            float(t[:-2])
            return t[-2:]
        except ValueError:
            pass
    return ""


def gstart(rng, pars):
    ws = rng.sample(WORDS, rng.choice([1, 2, 3]))
    dirs = list(rng.choice(BASES))
    if rng.random() < 0.25:     # already convolved
        n = {"dirs": dirs, "toks": [word(t) for t in ws]}
        for p in pars[:rng.randint(1, 2)]:
            n = doc_name(n, dict(p, val=rng.choice(VALUES[p["kind"]])))
        return n
    return {"dirs": dirs, "toks": [word(t) for t in ws]}


def doc_name(name, p):
    """The documented name, to put files where they will be looked for."""
    systs = ("smear", "scale", "shift")
    dirs, toks = list(name["dirs"]), list(name["toks"])
    if p["dim"] not in dirs:
        dirs.append(p["dim"])
    at, now = None, None
    for i, d in enumerate(dirs):
        if d in systs:
            if (now, d) == (p["dim"], p["kind"]) and at is None:
                at = i
        else:
            now = d
    if at is None:
        if now != p["dim"]:
            dirs.append(p["dim"])
        dirs.append(p["kind"])
        at = len(dirs) - 1
    nth = dirs[:at + 1].count(p["kind"])
    es = {"smear": ("ly", "rs"), "scale": ("sc",), "shift": ("sh",)}
    e = es[p["kind"]][-1]
    if p["kind"] == "smear" and num(p["val"]) > 10:
        e = "ly"
    t = {"t": fl(num(p["val"])) + e, "ext": e}
    own = [j for j, x in enumerate(toks) if x["ext"] in es[p["kind"]]]
    if nth <= len(own):
        toks[own[nth - 1]] = t
    else:
        toks.append(t)
    return {"dirs": dirs, "toks": toks}


def doc_all(name, pars):
    for p in pars:
        name = doc_name(name, p)
    return name


def gcells(rng, n=4):
    return [repr(round(rng.uniform(0.5, 20), 2)) for _ in range(n)]


def gstore(rng, name):
    """A stored spectrum: as the data, or reaching below or above it, or with
    smaller bins."""
    below, above, fine = 0, 0, 1
    if rng.random() < 0.4:
        below, above = rng.choice([0, 1, 1]), rng.choice([0, 1, 2])
        fine = rng.choice([1, 1, 2])
    return {"op": "store", "name": name, "below": below, "above": above,
            "fine": fine, "cells": gcells(rng, (4 + below + above) * fine),
            "dec": repr(round(rng.uniform(5, 300), 1))}


def gsource(rng, loc, rate=True):
    s = {"loc": loc, "dec": repr(round(rng.uniform(5, 300), 1)),
         "name": "_".join(x["t"] for x in loc["toks"][:2]) + "_mc",
         "cells": gcells(rng), "rate": []}
    if rate and rng.random() < 0.8:
        s["rate"] = [{"lo": "0", "hi": "100", "bins": 3, "prior": "50",
                      "sigma": "none"}]
    return s


def gen_names(rng):
    s = [{"op": "new"}]
    pars = gpars(rng, rng.choice([1, 2, 2, 3, 4]))
    start = gstart(rng, pars)
    for _ in range(rng.randint(2, 5)):
        ps = []
        for p in pars:
            ps.append(dict(p, val=rng.choice(VALUES[p["kind"]]),
                           **{"as": rng.choice(["float", "numpy", "plain"])}))
        if rng.random() < 0.3:
            ps += [dict(p, val=rng.choice(VALUES[p["kind"]]))
                   for p in rng.sample(ps, 1)]
        if rng.random() < 0.1:
            ps[rng.randrange(len(ps))]["val"] = "none"
        s.append({"op": "names", "start": start, "pars": ps,
                  "slash": rng.random() < 0.7})
    return s


def gen_fit(rng, one):
    """Files for some values, and loads or a fit that ask for them."""
    s = [{"op": "new"}]
    pars = gpars(rng, rng.choice([1, 1, 2, 2, 3]))
    vals = [rng.sample(VALUES[p["kind"]], 2) for p in pars]
    start = gstart(rng, pars)
    locs = [start]
    for _ in range(rng.choice([0, 1, 1])):
        locs.append({"dirs": start["dirs"], "toks":
                     [word("other%d" % len(locs))] + start["toks"]})
    bases = [[]] if rng.random() < 0.4 else [[["base"]], [["alt", "dir"]]]
    combos = []
    for _ in range(rng.choice([2, 3, 4])):
        combos.append([dict(p, val=rng.choice(v))
                       for p, v in zip(pars, vals)])
    for l in locs:
        s.append(gstore(rng, l))
        for b in bases:
            for c in combos:
                if rng.random() < 0.95:
                    s.append(gstore(rng, doc_all(
                        {"dirs": b[0] if b else l["dirs"],
                         "toks": l["toks"]}, c)))
    srcs = [gsource(rng, l) for l in locs]
    if one:
        for _ in range(rng.randint(2, 5)):
            s.append({"op": "load", "sp": rng.choice(srcs),
                      "base": rng.choice(bases), "pars": rng.choice(combos),
                      "slash": rng.random() < 0.5})
        return s
    sig = [srcs.pop()] if len(srcs) > 1 and rng.random() < 0.6 else []
    for x in sig:
        x["rate"] = []
    s.append({"op": "create", "floats": srcs, "signal": sig, "globals": [
        [p["dim"], p["kind"]] for p in pars], "base": bases[0],
        "slash": rng.random() < 0.5})
    for _ in range(rng.randint(2, 6)):
        if bases[0] and rng.random() < 0.25:
            s.append({"op": "set_dir", "base": rng.choice(
                bases + [[["nowhere"]]]), "slash": rng.random() < 0.5})
        s.append({"op": "eval", "pars": rng.choice(combos), "rates": [
            repr(rng.choice([0, 1, 50, 12.5])) for _ in range(3)]})
    return s


def gen(profile, rng, n):
    return [gen_names(rng) if rng.random() < 0.5 else
            gen_fit(rng, rng.random() < 0.4) for _ in range(n)]


# -------------------------------------------------------------- execution
def value(p):
    if p["val"] == "none":
        return None
    v = num(p["val"])
    a = p.get("as", "float")
    return v if a == "plain" else numpy.float64(v) if a == "numpy" else \
        float(v)


def mkpar(p):
    q = CLS[p["kind"]](p["dim"] + "_" + p["kind"], 1., None, 0.5, 2., 3,
                       p["dim"])
    if p["val"] != "none":
        q.set_current_value(value(p))
    return q


def path(dirs, slash=True):
    return "/".join(dirs) + ("/" if slash else "")


def fname(toks):
    return "_".join(x["t"] for x in toks) + ".hdf5"


def parse(d, f):
    f = f[:-5] if f.endswith(".hdf5") else f
    return {"dirs": [x for x in d.split("/") if x != ""],
            "toks": [word(t) for t in f.split("_")]}


NONE = {"dirs": [], "toks": []}
BLANK = dict(before=NONE, after=NONE, p={"dim": "", "kind": "", "val": ""},
             ps=[], start=NONE, ok=True, err="", good=True, whole=True,
             below=0, fine=1, cells=[], dec="0", kept=True, base=[],
             sp={"loc": NONE, "dec": "0"}, floats=[], signal=[], rates=[])


def plain(ps):
    return [{"dim": p["dim"], "kind": p["kind"], "val": p["val"] if
             p["val"] == "none" else fl(num(p["val"]))} for p in ps]


class Files(object):
    def __init__(self, root):
        self.root = root

    def full(self, dirs, slash=True):
        return os.path.join(self.root, path(dirs, slash))

    def put(self, name, s):
        d = self.full(name["dirs"])
        if not os.path.isdir(d):
            os.makedirs(d)
        store.dump(d + fname(name["toks"]), s)

    def where(self, location):
        d, f = os.path.split(location)
        if d.startswith(self.root):
            d = d[len(self.root):]
        return parse(d, f)


def spectrum(o, name):
    b, f = o.get("below", 0), o.get("fine", 1)
    axes = [{"n": "energy_mc", "lo": repr(1. - b),
             "hi": repr(5. + o.get("above", 0)),
             "b": (4 + b + o.get("above", 0)) * f}]
    return build({"axes": axes, "dec": o["dec"], "cells": o["cells"],
                  "name": name, "rates": o.get("rate", [])})


def see(s):
    return json.dumps([flat(s.get_data()), axes_of(s), tx(s.get_name()),
                       fl(s.get_num_decays())])


def run(seq, rec):
    import shutil
    top = os.path.join(os.path.abspath(os.environ.get("VT_CWD", ".")), "tree")
    if os.path.isdir(top):
        shutil.rmtree(top)
    os.mkdir(top)
    try:
        run_in(seq, rec, Files(top))
    finally:
        shutil.rmtree(top)


def source(files, o):
    """A spectrum that was read from its location."""
    s = spectrum(o, o["name"])
    s._location = files.full(o["loc"]["dirs"]) + fname(o["loc"]["toks"])
    return s


def run_in(seq, rec, files):
    fit, log, probe, one = None, Log(), None, None

    def note(op, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, **e)

    def opened(o):
        return files.full(o["base"][0], o["slash"]) if o["base"] else None

    for o in seq:
        op = o["op"]
        if op == "new":
            note("new")
        elif op == "names":
            d, f = path(o["start"]["dirs"], o["slash"]), fname(
                o["start"]["toks"])
            done = []
            for p in o["pars"]:
                added = p["dim"] not in d.split("/")
                if added:
                    d += ("" if d[-1:] == "/" else "/") + p["dim"] + "/"
                before = parse(d, f)
                done.append(p)
                ok, r, err = attempt(mkpar(p).get_pre_convolved, d, f, added)
                after, whole = NONE, True
                if ok:
                    ok, after, err = attempt(lambda: parse(r[0], r[1]))
                    whole = ok and r[1].endswith(".hdf5") and r[0][-1] == "/"
                note("name", before=before, p=plain([p])[0], ps=plain(done),
                     start=o["start"], after=after or NONE, ok=ok, err=err,
                     whole=whole)
                if not ok:
                    break
                d, f = r
        elif op == "store":
            s = spectrum(o, "stored_mc")
            ok, _, err = attempt(files.put, o["name"], s)
            note(op, before=o["name"], cells=flat(s.get_data()),
                 below=o.get("below", 0) * o.get("fine", 1),
                 fine=o.get("fine", 1),
                 dec=fl(s.get_num_decays()), ok=ok, err=err)
        elif op == "load":
            s = source(files, o["sp"])
            ok, one, err = attempt(Fit, {"energy": (1., 5.)},
                                   STATS["chi"](per_bin=False),
                                   use_pre_made=True,
                                   pre_made_base_dir=opened(o))
            if not ok:
                note("create", ok=ok, err=err)
                continue
            before = see(s)
            ok, r, err = attempt(one.load_pre_made, s,
                                 [mkpar(p) for p in o["pars"]])
            note(op, sp={"loc": o["sp"]["loc"],
                         "dec": fl(num(o["sp"]["dec"]))},
                 base=o["base"], ps=plain(o["pars"]), ok=ok, err=err,
                 kept=see(s) == before,
                 after=files.where(r._location) if ok else NONE,
                 cells=flat(r.get_data()) if ok else [],
                 dec=fl(r.get_num_decays()) if ok else "0")
        elif op == "create":
            log = Log()
            probe = Probe(False)
            data = spectrum({"dec": "40", "cells": ["5", "15", "6", "4"]},
                            "data_mc")
            gl = [{"dim": d, "kind": UKIND[k], "prior": "1", "sigma": "none",
                   "lo": "0.5", "hi": "2", "bins": 3}
                  for d, k in o["globals"]]
            fl_ = [source(files, x) for x in o["floats"]]
            sg = [source(files, x) for x in o["signal"]]
            n, out = 0, []
            for x in o["floats"]:
                n += len(x["rate"])
                out.append({"sp": {"loc": x["loc"],
                                   "dec": fl(num(x["dec"]))},
                            "rate": n if x["rate"] else 0})
            ok, fit, err = attempt(
                Fit, {"energy": (1., 5.)}, recording(STATS["chi"], log, False),
                fit_config=global_config(gl), data=data,
                floating_backgrounds=fl_, signal=sg[0] if sg else None,
                minimiser=probe, use_pre_made=True,
                pre_made_base_dir=opened(o))
            log.fit = fit
            note(op, ok=ok, err=err, floats=out, base=o["base"], signal=[
                {"sp": {"loc": x["loc"], "dec": fl(num(x["dec"]))}}
                for x in o["signal"]])
            if not ok:
                return
        elif op == "set_dir":
            good = os.path.isdir(opened(o))
            ok, _, err = attempt(fit.set_pre_made_dir, opened(o))
            note(op, base=o["base"], ok=ok, err=err, good=good)
        elif op == "eval":
            log.evals = []
            rates = []
            for s in fit.get_floating_backgrounds():
                if s.get_fit_config():
                    rates.append(num(o["rates"][len(rates)]))
            probe.points = [[value(p) for p in o["pars"]] + rates]
            probe.results = []
            ok, _, err = attempt(fit.fit)
            note(op, ps=plain(o["pars"]), rates=[fl(r) for r in rates],
                 ok=ok and len(log.evals) == 1, err=err,
                 cells=log.evals[0]["exp"] if log.evals else [])
