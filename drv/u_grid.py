"""Driver: grid searches, their results and limit results (C11, C12, C24)."""
from collections import OrderedDict
import numpy
from common import fl, it, flat, shape as shp, attempt
from echidna.core import parameter
from echidna.core.config import (SpectraConfig, SpectraFitConfig,
                                 GlobalFitConfig)
from echidna.fit import test_statistic
from echidna.fit.minimise import GridSearch
from echidna.fit.fit_results import LimitResults


def num(t):
    if t in ("nan", "inf", "-inf"):
        return float(t)
    return float(t)


def prod(s):
    p = 1
    for n in s:
        p *= n
    return p


# ------------------------------------------------------------- generation
def gvals(rng, n, style):
    if style == "ties":
        return [str(rng.randint(0, 2)) for _ in range(n)]
    if style == "dyadic":
        return [repr(rng.randint(0, 80) / 8.) for _ in range(n)]
    if style == "nan":
        return [rng.choice(["nan", "1", "2.5", "0.5"]) for _ in range(n)]
    if style == "neg":
        return [repr(round(rng.uniform(-5, 5), 3)) for _ in range(n)]
    if style == "inf":
        return [rng.choice(["inf", "3", "1e300"]) for _ in range(n)]
    return [repr(rng.uniform(0, 50)) for _ in range(n)]


STYLES = ["ties", "dyadic", "rand", "neg", "nan", "inf"]


def gmake(rng):
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    sh = [rng.choice([1, 2, 3, 4]) if nd > 1 else rng.randint(2, 7)
          for _ in range(nd)]
    pb = rng.random() < 0.45
    ss = rng.choice([[2], [3], [1], [2, 2], [1, 3], [2, 1], [1],
                     [2, 1, 3] if nd < 4 else [2], [2, 2, 2],
                     [2, 2, 1, 3] if nd < 3 else [3, 2]])
    pars = []
    for i, n in enumerate(sh):
        lo = round(rng.uniform(0.5, 4), 1)
        hi = lo + round(rng.uniform(0.5, 9), 1)
        if rng.random() < 0.1:      # values so close they are almost equal
            lo, hi = 1e6, 1e6 + 5
        elif rng.random() < 0.1:
            lo, hi = 1e-9, 9e-9
        pars.append({"kind": rng.choice(["rate", "scale", "shift"]),
                     "lo": repr(lo), "hi": repr(hi), "bins": n,
                     "prior": repr((lo + hi) / 2),
                     "sigma": rng.choice(["none", "0.5", "2"]),
                     "mode": rng.choice(["linear", "linear", "log"])})
    return {"op": "make", "pars": pars, "ss": ss, "pb": pb,
            "np": rng.random() < 0.5}


def gen_search(rng):
    m = gmake(rng)
    s = [m]
    sh = [p["bins"] for p in m["pars"]]
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        style = rng.choice(STYLES)
        n = prod(sh)
        nb = prod(m["ss"]) if m["pb"] else 1
        if r < 0.7:
            wrong = ""
            if m["pb"] and rng.random() < 0.15:
                wrong = rng.choice(["float", "short", "one"])
                if wrong == "one" and nb == 1 or wrong == "short" and nb < 2:
                    wrong = "float"
            s.append({"op": "minimise", "table": gvals(rng, n * nb, style),
                      "ptable": gvals(rng, n, rng.choice(
                          ["ties", "dyadic", "rand"])), "wrong": wrong})
        elif r < 0.8:
            k = rng.randint(0, len(sh) - 1)
            if len(sh) < 3 and rng.random() < 0.5:      # another parameter
                sh.append(rng.choice([1, 2, 3]))
                s.append({"op": "reset", "k": -1, "bins": sh[-1]})
            elif sh[k] > 1:
                sh[k] = rng.choice([2, 3, 5])
                s.append({"op": "reset", "k": k, "bins": sh[k]})
            else:
                s.append({"op": "reset", "k": k, "bins": 1})
        else:
            fs = [rng.randint(1, 4) for _ in range(rng.choice([1, 2, 3, 4]))]
            s.append({"op": "find", "shape": fs,
                      "arr": gvals(rng, prod(fs), style)})
    return s


def gen_read(rng):
    m = gmake(rng)
    s = [m]
    sh = [p["bins"] for p in m["pars"]]
    n = prod(sh)
    nb = prod(m["ss"]) if m["pb"] else 1

    def idx(bad):
        i = [rng.randint(0, k - 1) for k in sh]
        if bad:
            j = rng.randint(0, len(sh) - 1)
            i[j] = sh[j] + rng.randint(0, 2)
        return i
    s.append({"op": "set_stats", "table": gvals(rng, n * nb, "rand"),
              "wrong": ""})
    s.append({"op": "set_penalty_terms", "table": gvals(rng, n, "rand"),
              "wrong": ""})
    for _ in range(rng.randint(4, 9)):
        r = rng.random()
        if r < 0.1:
            op = rng.choice(["set_stats", "set_penalty_terms"])
            s.append({"op": op, "table": gvals(
                rng, n * nb if op == "set_stats" else n, "rand"),
                "wrong": rng.choice(["", "shape", "list"])})
        elif r < 0.35:
            op = rng.choice(["set_stat", "set_penalty_term", "get_stat",
                             "get_penalty_term", "get_raw_stat"])
            s.append({"op": op, "idx": idx(rng.random() < 0.2),
                      "table": gvals(rng, nb if op == "set_stat" else 1,
                                     "rand")})
        elif r < 0.65:
            op = rng.choice(["get_raw_stats", "get_raw_stats",
                             "get_raw_stats_at", "get_penalty_at"])
            fix = idx(False)
            if op == "get_raw_stats":
                fix = [f if rng.random() < 0.5 else -1 for f in fix]
            s.append({"op": op, "fix": fix, "near": rng.random() < 0.3,
                      "unknown": op == "get_raw_stats" and
                      rng.random() < 0.1})
        elif r < 0.8:
            s.append({"op": rng.choice(["get_stats", "get_scales",
                                        "get_penalty_terms"]),
                      "fix": [rng.randint(0, len(sh) - 1)]})
        else:
            axes = len(sh) + (len(m["ss"]) if m["pb"] else 0)
            keep = sorted(rng.sample(range(1, axes + 1),
                                     rng.randint(1, axes)))
            s.append({"op": rng.choice(["project", "project_at"]),
                      "keep": keep, "idx": idx(rng.random() < 0.1),
                      "unknown": rng.random() < 0.1})
    return s


def gen_limit(rng):
    ns, npar = rng.randint(1, 5), rng.randint(1, 4)
    s = [{"op": "lmake", "ns": ns, "np": npar}]
    for _ in range(rng.randint(5, 14)):
        op = rng.choice(["lset_best_fit", "lset_penalty_term",
                         "lset_limit_stat", "lset_best_fit",
                         "lset_penalty_term", "lget_best_fit",
                         "lget_best_fits", "lget_penalty_term",
                         "lget_penalty_terms", "lget_penalty_terms_at_scale",
                         "lget_full_stat", "lget_full_stats",
                         "lget_limit_stat", "lget_stats", "lget_scales"])
        i, k = rng.randint(0, ns - 1), rng.randint(0, npar - 1)
        if rng.random() < 0.07:
            i = ns + rng.randint(0, 2)
        elif rng.random() < 0.07:
            k = npar
        s.append({"op": op, "i": i, "k": k,
                  "x": repr(round(rng.uniform(-9, 40), 3))})
    return s


def gen(profile, rng, n):
    out = []
    for i in range(n):
        if profile == "search":
            out.append(gen_search(rng))
        else:
            out.append(gen_limit(rng) if i % 3 == 0 else gen_read(rng))
    return out


# -------------------------------------------------------------- execution
KINDS = {"rate": parameter.RateParameter, "scale": parameter.ScaleParameter,
         "shift": parameter.ShiftParameter}
BLANK = {"ok": True, "err": "", "vals": [], "ss": [], "pb": False,
         "sig": [], "table": [], "ptable": [], "wrong": "", "calls": [],
         "out": [], "outshape": [], "outpen": [], "best": [], "parpen": [],
         "sum": [], "sumpen": [], "full": [], "shape": [], "arr": [],
         "arr2": [], "idx": [], "fix": [], "unknown": False, "keep": [],
         "stats": [], "pens": [], "i": -1, "k": -1, "x": "0", "ns": 0,
         "np": 0, "lstat": [], "lbest": [], "lpen": [], "scales": []}


def make(op):
    pars = OrderedDict()
    for i, p in enumerate(op["pars"]):
        kw = {}
        if p["mode"] == "log":
            kw["logscale"] = True
        if p["kind"] != "rate":
            kw["dimension"] = "energy"
        nm = "%s_%d" % (p["kind"], i)
        q = KINDS[p["kind"]](
            nm, float(p["prior"]),
            None if p["sigma"] == "none" else float(p["sigma"]),
            float(p["lo"]), float(p["hi"]), p["bins"], **kw)
        pars[nm] = {"par": q, "type": "spectra" if p["kind"] == "rate"
                    else "global"}
    cfg = GlobalFitConfig("fitcfg", pars)
    sc = OrderedDict()
    for i, n in enumerate(op["ss"]):
        nm = "dim%d_mc" % i
        sc[nm] = parameter.SpectraParameter(nm, 0., 1., n)
    return cfg, SpectraConfig("speccfg", sc)


def run(seq, rec):
    gs = cfg = sc = lr = None
    grid = []           # values per parameter as given by the parameters
    lcfg = llim = None

    def values():
        return [list(cfg.get_par(p).get_values().tolist())
                for p in cfg.get_pars()]

    def sigmas():
        return [[fl(cfg.get_par(p).get_prior()),
                 "none" if cfg.get_par(p).get_sigma() is None
                 else fl(cfg.get_par(p).get_sigma())]
                for p in cfg.get_pars()]

    def note(o, ok, err, **k):
        e = dict(BLANK)
        e.update({x: o[x] for x in o if x in BLANK})
        e.update(ok=ok, err=err)
        if gs is not None:
            e["stats"] = flat(attempt(gs.get_raw_stat, ())[1])
            e["pens"] = flat(attempt(gs.get_penalty_terms,
                                     list(cfg.get_pars())[0])[1])
        if lr is not None:
            e["lstat"] = flat(lr.get_stats())
            e["lpen"] = [flat(lr.get_penalty_terms_at_scale(i))
                         for i in range(len(lr.get_stats()))]
            cols = [flat(lr.get_best_fits(p)) for p in lcfg.get_pars()]
            e["lbest"] = [[c[i] for c in cols]
                          for i in range(len(lr.get_stats()))]
        e.update(k)
        rec.event(op=o["op"], **e)

    def table(o, key="table"):
        return numpy.array([num(x) for x in o[key]])

    for o in seq:
        op = o["op"]
        if op == "cells":       # a behaviour of the model: both methods
            sub = [{"op": "make", "pars": [
                {"kind": "rate", "lo": "1", "hi": str(max(2, n)), "bins": n,
                 "prior": "1", "sigma": "2", "mode": "linear"}
                for n in o["shape"]], "ss": o["ss"], "pb": o["pb"],
                "np": b} for b in (True, False)]
            mini = {"op": "minimise", "wrong": "",
                    "table": [x for c in o["table"] for x in c["row"]],
                    "ptable": [c["pen"] for c in o["table"]]}
            run([sub[0], mini], rec)
            run([sub[1], mini], rec)
            continue
        if op == "make":
            lr = None
            gs = None
            cfg, sc = make(o)
            ok, gs, err = attempt(GridSearch, cfg, sc, per_bin=o["pb"],
                                  use_numpy=o["np"])
            grid = values()
            note(o, ok, err, vals=[[fl(x) for x in v] for v in grid],
                 sig=sigmas(), np=0)
            if not ok:
                return
        elif op == "find":
            a = table(o, "arr").reshape(o["shape"])
            g2 = gs
            if g2 is None:
                c2, s2 = make({"pars": [{"kind": "rate", "lo": "1",
                                         "hi": "2", "bins": 2, "prior": "1",
                                         "sigma": "none", "mode": "linear"}],
                               "ss": [1]})
                g2 = GridSearch(c2, s2)
            ok, r, err = attempt(g2.find_minimum, a)
            out, idx = [], []
            if ok:
                ok, _, _ = attempt(lambda: (out.append(fl(r[0])),
                                            idx.extend(it(i) for i in r[1])))
            note(o, ok, err, out=out, idx=idx, arr2=flat(a))
        elif op.startswith("l"):
            if op == "lmake":
                gs = None
                pars = OrderedDict(
                    ("r%d_rate" % i, {"par": parameter.RateParameter(
                        "r%d_rate" % i, 1., None, 0., 2., 3),
                        "type": "spectra"}) for i in range(o["np"]))
                lcfg = GlobalFitConfig("lfit", pars)
                llim = SpectraFitConfig("lim", OrderedDict([
                    ("rate", parameter.RateParameter(
                        "rate", 1., None, 0.5, 7., o["ns"]))]), "signal")
                ok, lr, err = attempt(LimitResults, lcfg, SpectraConfig(
                    "sc", OrderedDict()), llim)
                note(o, ok, err)
                if not ok:
                    return
                continue
            if lr is None:
                continue
            names = list(lcfg.get_pars()) + ["not_there"]
            i, par = o["i"], names[min(o["k"], len(names) - 1)]
            x = num(o["x"])
            f = {"lset_best_fit": lambda: lr.set_best_fit(i, x, par),
                 "lset_penalty_term":
                     lambda: lr.set_penalty_term(i, x, par),
                 "lset_limit_stat": lambda: lr.set_limit_stat(i, x),
                 "lget_best_fit": lambda: lr.get_best_fit(i, par),
                 "lget_best_fits": lambda: lr.get_best_fits(par),
                 "lget_penalty_term": lambda: lr.get_penalty_term(i, par),
                 "lget_penalty_terms": lambda: lr.get_penalty_terms(par),
                 "lget_penalty_terms_at_scale":
                     lambda: lr.get_penalty_terms_at_scale(i),
                 "lget_full_stat": lambda: lr.get_full_stat(i),
                 "lget_full_stats": lr.get_full_stats,
                 "lget_limit_stat": lambda: lr.get_limit_stat(i),
                 "lget_stats": lr.get_stats,
                 "lget_scales": lr.get_scales}[op]
            scale_only = op in ("lset_limit_stat", "lget_full_stat",
                                "lget_penalty_terms_at_scale",
                                "lget_limit_stat")
            par_only = op in ("lget_best_fits", "lget_penalty_terms")
            none = op in ("lget_full_stats", "lget_stats", "lget_scales")
            ok, r, err = attempt(f)
            note(o, ok, err, i=-1 if par_only or none else o["i"],
                 k=-1 if scale_only or none else o["k"],
                 out=flat(numpy.atleast_1d(r)) if ok and r is not None
                 else [], x=fl(x),
                 scales=flat(llim.get_par("rate").get_values()))
        elif gs is None:
            continue
        elif op == "minimise":
            sh = [len(v) for v in grid]
            ss = tuple(sc.get_shape())
            pb = gs._per_bin if hasattr(gs, "_per_bin") else False
            tab = table(o)
            pt = table(o, "ptable")
            nb = prod(ss) if pb else 1
            if len(pt) != prod(sh) or len(tab) != prod(sh) * nb:
                continue
            calls = []

            def funct(*args):
                c = 0
                for a, v in zip(args, grid):
                    hit = [j for j, y in enumerate(v) if y == float(a)]
                    if not hit or c < 0:
                        c = -1
                    else:
                        c = c * len(v) + hit[0]
                if len(args) != len(grid):
                    c = -1
                calls.append(c)
                row = tab[c * nb:(c + 1) * nb] if c >= 0 else \
                    numpy.zeros(nb)
                p = float(pt[c]) if c >= 0 else 0.
                if pb:
                    if o["wrong"] == "float":
                        return float(row.sum()), p
                    if o["wrong"] == "one":
                        return numpy.zeros((1,) * len(ss)), p
                    if o["wrong"] == "short":
                        return row[:-1], p
                    return row.reshape(ss), p
                return float(row[0]), p
            ts = test_statistic.BakerCousinsChi(per_bin=pb)
            ok, r, err = attempt(gs.minimise, funct, ts)
            best, parpen, out, outpen, full, s1, s2 = ([] for _ in range(7))
            if ok:
                best = [fl(attempt(cfg.get_par(p).get_best_fit)[1])
                        for p in cfg.get_pars()]
                parpen = [fl(attempt(cfg.get_par(p).get_penalty_term)[1])
                          for p in cfg.get_pars()]

                def unpack():
                    out.extend(flat(numpy.atleast_1d(r[0])))
                    outpen.append(fl(r[1]))
                attempt(unpack)
                full = flat(attempt(gs.get_stats)[1])
                y, sm, _ = attempt(gs.get_summary)
                if y:
                    attempt(lambda: s1.extend(
                        fl(sm[p]["best_fit"]) for p in cfg.get_pars()))
                    attempt(lambda: s2.extend(
                        fl(sm[p]["penalty_term"]) for p in cfg.get_pars()))
            note(o, ok, err, calls=calls, out=out, outpen=outpen, best=best,
                 parpen=parpen, full=full, sum=s1, sumpen=s2,
                 table=[fl(x) for x in tab], ptable=[fl(x) for x in pt])
        elif op == "reset":
            def reset():
                if o["k"] < 0:
                    q = parameter.RateParameter(
                        "rate_%d" % len(cfg.get_pars()), 1.5, None, 1., 2.,
                        o["bins"])
                    cfg.add_par(q, "spectra")
                else:
                    p = cfg.get_par(list(cfg.get_pars())[o["k"]])
                    p.set_par(bins=o["bins"])
                gs.reset_grids()
            ok, _, err = attempt(reset)
            grid = values()
            note(o, ok, err, vals=[[fl(x) for x in v] for v in grid], k=-1,
                 sig=sigmas())
        elif op in ("set_stats", "set_penalty_terms"):
            a = table(o)
            want = gs.get_raw_stat(()).shape if op == "set_stats" else \
                tuple(cfg.get_shape())
            if a.size != prod(want):
                continue
            a = a.reshape(want)
            if o["wrong"] == "shape":
                a = a.reshape(want + (1,))
            elif o["wrong"] == "list":
                a = a.tolist()
            ok, _, err = attempt(getattr(gs, op), a)
            note(o, ok, err, table=[fl(num(x)) for x in o["table"]])
        elif op in ("set_stat", "set_penalty_term"):
            idx = tuple(o["idx"])
            if op == "set_stat":
                a = table(o)
                a = a.reshape(sc.get_shape()) if gs.get_raw_stat(()).ndim > \
                    len(cfg.get_shape()) else numpy.array(a[0])
                ok, _, err = attempt(gs.set_stat, a, idx)
            else:
                ok, _, err = attempt(gs.set_penalty_term, float(table(o)[0]),
                                     idx)
            note(o, ok, err, table=[fl(num(x)) for x in o["table"]])
        elif op in ("get_stat", "get_penalty_term", "get_raw_stat"):
            ok, r, err = attempt(getattr(gs, op), tuple(o["idx"]))
            note(o, ok, err, out=flat(numpy.atleast_1d(r)) if ok else [])
        elif op in ("get_raw_stats", "get_raw_stats_at", "get_penalty_at"):
            kw = {}
            for p, f, v in zip(cfg.get_pars(), o["fix"], grid):
                if f >= 0:      # the value, up to rounding
                    kw[p] = v[f] if not o.get("near") else float(
                        numpy.nextafter(v[f], (-1) ** len(kw) * numpy.inf))
            if o["unknown"]:
                kw["not_there"] = 1.
            ok, r, err = attempt(lambda: getattr(gs, op)(**kw))
            note(o, ok, err, out=flat(numpy.atleast_1d(r)) if ok else [],
                 outshape=list(numpy.shape(r)) if ok else [])
        elif op in ("get_stats", "get_scales", "get_penalty_terms"):
            par = list(cfg.get_pars())[o["fix"][0]]
            a = () if op == "get_stats" else (par,)
            ok, r, err = attempt(getattr(gs, op), *a)
            note(o, ok, err, out=flat(numpy.atleast_1d(r)) if ok else [],
                 outshape=shp(r) if ok else [])
        elif op in ("project", "project_at"):
            names = list(cfg.get_pars()) + list(sc.get_pars())
            a = [names[k - 1] for k in o["keep"]]
            if o["unknown"]:
                a.append("not_there")
            if op == "project":
                ok, r, err = attempt(gs.nd_project_stats, *a)
            else:
                ok, r, err = attempt(gs.nd_project_stat, tuple(o["idx"]), *a)
            note(o, ok, err, out=flat(numpy.atleast_1d(r)) if ok else [])
