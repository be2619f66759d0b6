"""Driver: fits (C13, C14)."""
import copy
import itertools
from collections import OrderedDict
import numpy
from common import fl, it, tx, attempt
from u_spectrum import num, make
from u_convolve import simple
from echidna.core import parameter
from echidna.core.config import SpectraFitConfig, GlobalFitConfig
from echidna.fit import test_statistic
from echidna.fit.fit import Fit

TIME_LIMIT = 60
STATS = {"chi": test_statistic.BakerCousinsChi,
         "ll": test_statistic.BakerCousinsLL}
KIND = {parameter.RateParameter: "rate", parameter.ScaleParameter: "scale",
        parameter.ShiftParameter: "shift",
        parameter.ResolutionParameter: "res"}


# ------------------------------------------------------------- generation
def a_few(axes):
    n = 1
    for a in axes:
        n *= a["b"]
    return n < 12


class Frame(object):
    """The common axes all spectra of one sequence are built on."""

    def __init__(self, rng):
        self.exact = rng.random() < 0.6
        n = rng.choice([1, 1, 2, 2, 3])
        self.far = far = rng.random() < 0.25
        self.dims = []
        for d in ["energy", "radial", "x_pos"][:n]:
            w = 2.0 ** rng.randint(-3, 0) if self.exact else \
                round(rng.uniform(0.05, 0.9), 2)
            lo = rng.choice([0, 1, 2, 4]) * w if self.exact else \
                round(rng.uniform(0, 3), 2)
            if d == "energy" and lo == 0 and rng.random() < 0.7:
                lo = 2 * w
            b = rng.choice([4, 5, 6, 8]) if d == "energy" else \
                rng.choice([1, 2, 3] if n < 3 else [1, 2, 2])
            if far and d != "energy":   # narrow bins a long way from zero
                w = rng.choice([0.0078125, 0.015625])
                lo = rng.choice([4096., 32768.])
            elif d != "energy" and rng.random() < 0.4:  # around zero
                lo = -w * rng.choice([1, 2, b])
            self.dims.append([d, lo, w, b])
        if rng.random() < 0.3:
            rng.shuffle(self.dims)
        self.globals = rng.random() < 0.6
        self.n, self.asked = 0, []

    def roi(self, rng, style=""):
        out = []
        for d, lo, w, b in self.dims:
            if d != "energy" and style != "all" and \
                    rng.random() < (0.2 if self.far else 0.6):
                continue
            if d == "energy":
                i = rng.choice([0, 0, 1])
                j = rng.choice([b, b, b - 1])
                if rng.random() < 0.1:
                    i, j = 1, 3
            else:
                i, j = sorted([rng.randint(0, b), rng.randint(0, b)])
                if i == j:
                    i, j = 0, b
            e = [lo + i * w, lo + j * w]
            if style == "off":
                e[rng.randrange(2)] += 0.4 * w * rng.choice([1, -1])
            if style == "beyond":
                e[1] = lo + (b + 9) * w
            if rng.random() < (0.1 if lo > 0 else 0.25):
                e.reverse()
            out.append({"d": d, "lo": repr(e[0]), "hi": repr(e[1])})
        return out

    def beside(self, rng, roi):
        """A region with one edge a bin away from the given one."""
        out = [dict(r) for r in roi]
        r = rng.choice(out)
        w = [d[2] for d in self.dims if d[0] == r["d"]][0]
        lo, hi = sorted([num(r["lo"]), num(r["hi"])])
        if rng.random() < 0.5:
            lo += w * (1 if hi - lo > 1.5 * w and rng.random() < 0.5 else -1)
        else:
            hi += w * (-1 if hi - lo > 1.5 * w and rng.random() < 0.5 else 1)
        r["lo"], r["hi"] = repr(lo), repr(hi)
        return out

    def within(self, rng, roi):
        """A region one bin of energy smaller."""
        out = [dict(r) for r in roi]
        w = [d[2] for d in self.dims if d[0] == "energy"][0]
        for r in out:
            if r["d"] == "energy":
                e = sorted([num(r["lo"]), num(r["hi"])])
                if e[1] - e[0] > 2.5 * w:
                    e = [e[0] + w, e[1]] if rng.random() < 0.5 else \
                        [e[0], e[1] - w]
                r["lo"], r["hi"] = repr(e[0]), repr(e[1])
        return out

    def spectrum(self, rng, refine=False, kind="mc", roi=None, style=""):
        """A spectrum over the frame (refined and extended if asked), or
        over the region of interest."""
        axes = []
        for d, lo, w, b in self.dims:
            i, j = 0, b
            for r in roi or []:
                if r["d"] == d:
                    e = sorted([num(r["lo"]), num(r["hi"])])
                    i, j = int(round((e[0] - lo) / w)), \
                        int(round((e[1] - lo) / w))
                    if j <= i:
                        i, j = 0, b
            f = rng.choice([1, 1, 2, 3] if a_few(axes) else [1, 1, 2]) \
                if refine else 1
            if refine and rng.random() < 0.25 and not roi:
                j += 1
            axes.append({"n": d + "_" + kind, "lo": repr(lo + i * w),
                         "hi": repr(lo + j * w), "b": (j - i) * f})
        if style == "order" and len(axes) > 1:
            axes.reverse()
        elif style == "turned" and len(axes) > 1:
            axes.append(axes.pop(0))
        elif style == "missing":
            axes.pop(rng.randrange(len(axes)))
            if not axes:
                axes.append({"n": "other_mc", "lo": "0", "hi": "1", "b": 4})
        elif style == "bins":
            a = rng.choice(axes)
            a["b"] = rng.choice([x for x in (1, 2, 3, 5, 7) if x != a["b"]])
        n = 1
        for a in axes:
            n *= a["b"]
        z = rng.choice([0, 0, 0.3])
        cells = [repr(0. if rng.random() < z else
                      round(rng.uniform(0.5, 20), 2)) for _ in range(n)]
        if rng.random() < 0.04:
            cells = ["0"] * n
        self.n += 1
        return {"name": "bg%d_%s" % (self.n, kind), "axes": axes,
                "cells": cells, "rate": None,
                "dec": repr(round(rng.uniform(5, 300), 1))}

    def floating(self, rng, roi=None, style=""):
        if not style and rng.random() < 0.2:
            style = rng.choice(["order", "turned"])
        s = self.spectrum(rng, True, "mc" if self.globals else
                          rng.choice(["mc", "mc", "truth"]), roi, style)
        if rng.random() < 0.9:
            lo = rng.choice([0, 0, 10, 50])
            b = rng.choice([1, 2, 3])
            hi = lo + rng.choice([20, 77, 100])
            s["rate"] = {"lo": repr(lo), "hi": repr(hi), "bins": b,
                         "prior": repr((lo + hi) / 2.),
                         "sigma": rng.choice(["none", "5", "12.5"])}
        if rng.random() < 0.15:     # same name as another one
            s["back"] = "same"
        return s

    def gpars(self, rng):
        out = []
        if not self.globals:
            return out
        w = [d[2] for d in self.dims if d[0] == "energy"][0]
        for k in rng.sample(["res", "shift", "scale", "ly"],
                            rng.choice([1, 1, 2, 3])):
            if k == "ly" and [1 for p in out if p["kind"] == "res"]:
                continue
            p = {"kind": "res" if k == "ly" else k, "bins": rng.choice(
                [1, 2, 3]), "sigma": rng.choice(["none", "0.1", "3"]),
                "dim": "energy_mc"}
            if k == "res":
                p["lo"], p["hi"] = rng.choice(
                    [(0.0731, 0.2114), (0.1217, 0.3131), (0.31, 0.62),
                     (0.2001, 0.2004), (0.12012, 0.12017)])
            elif k == "ly":
                p["lo"], p["hi"] = rng.choice([(101.3, 201.7), (20.3, 33.7),
                                               (100.1, 100.3)])
            elif k == "shift":
                m = rng.choice([1, 2]) * w
                if rng.random() < 0.25:
                    m *= 0.63
                p["lo"], p["hi"], p["bins"] = -m, m, rng.choice([2, 3])
            else:
                p["lo"], p["hi"] = rng.choice([(0.93, 1.07), (1.0, 1.11)])
            if p["bins"] == 1:
                p["hi"] = p["lo"] + 1e-3
            p["prior"] = repr((p["lo"] + p["hi"]) / 2.)
            if p["prior"] in ("0", "0.0"):
                p["prior"] = repr(p["hi"] * 0.5)
            p["lo"], p["hi"] = repr(p["lo"]), repr(p["hi"])
            out.append(p)
        if out and rng.random() < 0.04:
            out[0]["dim"] = "energy_reco"
        return out


def gpoints(rng, F=None):
    pts = [[round(rng.random() * 0.999, 3) for _ in range(6)]
           for _ in range(rng.choice([1, 2, 3]))]
    if F is not None and F.asked and rng.random() < 0.6:
        pts[0] = rng.choice(F.asked)        # a point of an earlier run
    if F is not None:
        F.asked += pts
    out = list(pts)
    for _ in range(rng.choice([0, 1, 2])):
        out.append(list(rng.choice(pts)))
    if rng.random() < 0.4:      # zero rates first
        out.insert(0, [0.] * 6)
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out


def gfixed(rng, F, roi=None, style=""):
    if not style and rng.random() < 0.15:       # all in the same order
        return [{"sp": F.spectrum(rng, False, rng.choice(["mc", "reco"]),
                                  roi, "order"),
                 "c": repr(rng.choice([7.5, 100]))}
                for _ in range(rng.choice([1, 2]))]
    return [{"sp": F.spectrum(rng, False, rng.choice(["mc", "reco"]), roi,
                              style if i == 0 or rng.random() < .5 else ""),
             "c": repr(rng.choice([0, 7.5, 100, round(rng.uniform(1, 90),
                                                      2)]))}
            for i in range(rng.choice([1, 1, 2, 3]))]


def gcreate(rng, F, profile):
    style = "" if rng.random() < (0.97 if profile == "expect" else 0.85) \
        else rng.choice(["off", "beyond", "order", "missing", "bins"])
    F.now = F.roi(rng, style if style in ("off", "beyond") else "")
    pb = rng.random() < 0.3
    if pb and profile == "expect":
        F.now = F.roi(rng, "all")
    bad = style if style in ("order", "missing", "bins") else ""
    o = {"op": "create", "roi": F.now, "bad": "", "fixed": [], "floats": [],
         "data": None, "signal": None, "globals": F.gpars(rng),
         "pb": pb, "stat": rng.choice(["chi", "ll"]),
         "spb": pb if rng.random() < 0.93 else not pb,
         "min": rng.choice(["probe", "probe", "grid"]),
         "mpb": pb if rng.random() < 0.95 else not pb,
         "shrink": rng.random() < 0.8,
         "one": not pb and rng.random() < 0.1}
    miss = profile != "expect" and rng.random() < 0.4
    if not miss or rng.random() < 0.7:
        o["data"] = F.spectrum(rng, False, rng.choice(["mc", "reco"]),
                               None, bad if rng.random() < 0.3 else "")
    if rng.random() < (0.6 if not miss else 0.3):
        o["fixed"] = gfixed(rng, F, None, bad if rng.random() < .5 else "")
    if rng.random() < (0.9 if not miss else 0.4) or \
            not miss and not o["fixed"]:
        o["floats"] = [F.floating(rng, None, bad if rng.random() < .4 else "")
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.6:
        o["signal"] = F.spectrum(rng, bool(F.globals and rng.random() < .6),
                                 "mc", None, bad if rng.random() < .4 else
                                 "order" if rng.random() < 0.15 else "")
    if rng.random() < 0.03:
        o["bad"] = rng.choice(["list", "scalar", "three"])
    if not o["floats"] and rng.random() < 0.3:
        o["lone"] = True
    if rng.random() < 0.08 and o["floats"] and o["signal"]:
        o["signal"]["back"] = "same"
    return o


def gstep(rng, F, kind):
    style = "" if rng.random() < 0.8 else rng.choice(
        ["order", "missing", "bins"])
    sh = rng.random() < 0.6
    roi = F.now if not sh and rng.random() < 0.7 else None
    if roi and rng.random() < (0.6 if F.far else 0.2):
        roi = F.beside(rng, roi)
    if kind in ("set_data", "set_fixed"):
        return {"op": kind, "shrink": sh, "sp": F.spectrum(
            rng, False, rng.choice(["mc", "reco"]), roi, style)}
    if kind == "set_signal":
        return {"op": kind, "shrink": sh, "sp": F.spectrum(
            rng, bool(F.globals and rng.random() < .5), "mc", roi, style)}
    if kind in ("make_fixed", "append_fixed"):
        return {"op": kind, "shrink": sh,
                "fixed": gfixed(rng, F, F.now if kind == "append_fixed" and
                                not sh else roi, style)}
    if kind == "set_floats":
        return {"op": kind, "shrink": sh,
                "floats": [F.floating(rng, roi, style)
                           for _ in range(rng.choice([1, 2]))]}
    if kind == "set_roi":
        r = F.roi(rng, rng.choice(["", "", "off", "beyond"]))
        o = {"op": kind, "roi": r, "bad": ""}
        if rng.random() < 0.2:
            o["bad"] = rng.choice(["list", "scalar", "three"])
        elif rng.random() < 0.8:
            F.now = r
        return o
    if kind == "set_config":
        return {"op": kind, "globals": F.gpars(rng),
                "bad": rng.random() < 0.1}
    if kind == "set_minimiser":
        return {"op": kind, "min": rng.choice(["probe", "grid"]),
                "mpb": rng.random() < 0.4}
    if kind == "set_stat":
        return {"op": kind, "stat": rng.choice(["chi", "ll"]),
                "spb": rng.random() < 0.4}
    if kind == "run":
        return {"op": "run", "points": gpoints(rng, F)}
    return {"op": kind}


WEIGHTS = {
    "expect": dict(run=10, set_signal=2, remove_signal=1, set_floats=1,
                   set_fixed=1, append_fixed=2, set_data=1, set_roi=1,
                   make_fixed=1, set_config=2, shrink_all=2),
    "confine": dict(run=5, check=3, set_data=2, set_signal=2, remove_signal=1,
                    make_fixed=2, append_fixed=3, set_fixed=2, set_floats=1,
                    set_roi=2, set_minimiser=2, set_stat=1, set_config=1,
                    shrink_all=1),
}


def gen(profile, rng, n):
    w = WEIGHTS[profile]
    kinds = [k for k in sorted(w) for _ in range(w[k])]
    seqs = []
    for _ in range(n):
        F = Frame(rng)
        s = [gcreate(rng, F, profile)]
        if profile == "expect" or rng.random() < 0.5:
            s.append({"op": "run", "points": gpoints(rng, F)})
        for _ in range(rng.choice([0, 1, 2, 3]) if profile == "expect"
                       else rng.randint(2, 6)):
            k = rng.choice(kinds)
            if k == "shrink_all" and rng.random() < 0.7:
                p = gpoints(rng, F)
                F.now = F.within(rng, F.now)
                s += [{"op": "run", "points": p},
                      {"op": "set_roi", "roi": F.now, "bad": ""},
                      {"op": k}, {"op": "run", "points": p}]
                continue
            if profile == "expect" and F.globals and rng.random() < 0.35:
                # the same point again, with another signal or region
                p = gpoints(rng, F)
                s.append({"op": "run", "points": p})
                if rng.random() < 0.5:
                    s.append({"op": "set_signal", "shrink": False,
                              "sp": F.spectrum(rng, rng.random() < 0.7, "mc",
                                               F.now)})
                else:
                    F.now = F.within(rng, F.now)
                    s += [{"op": "set_roi", "roi": F.now, "bad": ""},
                          {"op": "set_data", "shrink": True,
                           "sp": F.spectrum(rng)}]
                    if s[0]["fixed"]:
                        s.append({"op": "set_fixed", "shrink": True,
                                  "sp": F.spectrum(rng)})
                    s.append({"op": "same_signal",
                              "shrink": rng.random() < 0.8})
                s.append({"op": "run", "points": p})
                continue
            s.append(gstep(rng, F, k))
            if k == "set_roi" and rng.random() < 0.7:   # most parts follow
                if rng.random() < 0.2:
                    s.append({"op": "shrink_all"})
                for j in ["set_data", "set_fixed", "set_signal",
                          "set_floats"]:
                    if s[-1]["op"] != "shrink_all" and rng.random() < (
                            0.3 if j == "set_floats" else 0.75):
                        s.append(gstep(rng, F, j))
                s.append({"op": rng.choice(["check", "check", "run"])})
                if s[-1]["op"] == "run":
                    s[-1]["points"] = gpoints(rng, F)
            if k.startswith("set_") and rng.random() < 0.5:
                s.append({"op": "run", "points": gpoints(rng, F)})
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
class Log(object):
    def __init__(self):
        self.fit, self.evals = None, []


def recording(base, log, pb):
    class Recording(base):
        def compute_statistic(self, observed, expected):
            obs, exp = texts(observed), texts(expected)
            stat = base.compute_statistic(self, observed, expected)
            c = log.fit.get_fit_config() if log.fit is not None else None
            cur = []
            if c is not None and log.fit.get_floating_backgrounds():
                cur = [fl(c.get_par(p).get_current_value())
                       for p in c.get_pars()]
            log.evals.append({"obs": obs, "exp": exp,
                              "stat": texts(stat), "cur": cur})
            return stat
    return Recording(per_bin=pb)


def texts(a):
    try:
        return [fl(v) for v in numpy.array(a, dtype=float).ravel().tolist()]
    except Exception:
        return ["bad"]


class Probe(object):
    """A minimiser that evaluates the points it is given, in that order."""

    def __init__(self, pb):
        self._per_bin = pb
        self.points, self.results = [], []

    def get_name(self):
        return "probe"

    def minimise(self, funct, test_statistic):
        out = None
        for p in self.points:
            out = funct(*p)
            self.results.append((texts(out[0]), fl(out[1])))
        return out


def build(o):
    s, _ = make(o["axes"], o["dec"])
    for c, v in enumerate(o["cells"]):
        if num(v) == 0:
            continue
        kw, r = {}, c
        for a in reversed(o["axes"]):
            j = r % a["b"]
            r //= a["b"]
            lo, hi = num(a["lo"]), num(a["hi"])
            kw[a["n"]] = lo + (j + 0.5) * (hi - lo) / a["b"]
        s.fill(weight=num(v), **kw)
    s._name = o["name"]
    s.set_background_name("same" if o.get("back") else o["name"])
    r = o.get("rate") or (o.get("rates") or [None])[0]
    if r:
        p = parameter.RateParameter(
            "rate", num(r["prior"]),
            None if r["sigma"] == "none" else num(r["sigma"]),
            num(r["lo"]), num(r["hi"]), r["bins"])
        s.set_fit_config(SpectraFitConfig(
            "rates", OrderedDict([("rate", p)]), o["name"]))
    return s


def global_config(pars, lone=False):
    d = OrderedDict()
    for p in pars:
        name = p["dim"] + "_" + {"res": "resolution"}.get(p["kind"],
                                                          p["kind"])
        cls = {"res": parameter.ResolutionParameter,
               "shift": parameter.ShiftParameter,
               "scale": parameter.ScaleParameter}[p["kind"]]
        d[name] = {"type": "global", "par": cls(name, num(p["prior"]),
                              None if p["sigma"] == "none" else
                              num(p["sigma"]), num(p["lo"]), num(p["hi"]),
                              p["bins"], p["dim"])}
    if lone:        # the rate of no spectrum in particular
        d["some_rate"] = {"par": parameter.RateParameter(
            "some_rate", 5., None, 0., 10., 3), "type": "spectra"}
    return GlobalFitConfig("fit", d)


def roi_arg(roi, bad):
    if bad == "list":
        return [(num(r["lo"]), num(r["hi"])) for r in roi]
    d = dict((r["d"], (num(r["lo"]), num(r["hi"]))) for r in roi)
    if d and bad:
        k = sorted(d)[0]
        d[k] = 1.5 if bad == "scalar" else (1., 2., 3.)
    return d


DEAD = {"alive": False, "roi": [], "data": [], "fixed": [], "floats": [],
        "signal": [], "pars": [], "pb": False, "spb": False, "mpb": False,
        "min": False, "one": False, "stat": ""}


def kind_of(p):
    for c in KIND:
        if isinstance(p, c):
            return KIND[c]
    return "other"


def pars_of(cfg):
    pars = []
    gl = [id(p) for p in cfg.get_global_pars()]
    for n in cfg.get_pars():
        p = cfg.get_par(n)
        sg = p.get_sigma()
        k = kind_of(p)
        pars.append({"n": n, "kind": k, "prior": fl(p.get_prior()),
                     "sigma": "none" if sg is None else fl(sg),
                     "dim": "" if k == "rate" else tx(p.get_dimension()),
                     "g": id(p) in gl})
    return pars


def state(fit, one):
    if fit is None:
        return DEAD
    opt = lambda s: [] if s is None else [simple(s)]      # noqa: E731
    cfg = fit.get_fit_config()
    pars = pars_of(cfg)
    floats = []
    for s in fit.get_floating_backgrounds() or []:
        c = s.get_fit_config()
        floats.append({"sp": simple(s), "rate": "" if not c else
                       c.get_par_by_index(0).get_name()
                       if not isinstance(c.get_pars(), type({}.keys()))
                       else c.get_par(list(c.get_pars())[0]).get_name()})
    m = fit.get_minimiser()
    roi = fit.get_roi()
    return {"alive": True, "data": opt(fit.get_data()),
            "roi": [{"d": d, "lo": fl(roi[d][0]), "hi": fl(roi[d][1])}
                    for d in sorted(roi)],
            "fixed": opt(fit.get_fixed_background()), "floats": floats,
            "signal": opt(fit.get_signal()), "pars": pars,
            "pb": bool(fit._per_bin), "min": m is not None,
            "mpb": bool(m._per_bin) if m is not None else False,
            "spb": bool(fit.get_test_statistic()._per_bin), "one": bool(one),
            "stat": "ll" if isinstance(fit.get_test_statistic(),
                                       STATS["ll"]) else "chi"}


BLANK = dict(shrink=True, sps=[], sps2=[], cs=[], asked=[], asked2=[],
             nums=[0, 0, 0, 0], good=True, evs=[], how="", ret=[], best=[],
             points=0, ok=True, err="")


def values_of(par):
    return [float(v) for v in par.get_values()]


def run(seq, rec):
    fit, log, probe, one = None, Log(), None, False
    stale = False

    def note(op, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, st=state(fit, one), **e)

    for op in seq:
        o = op["op"]
        log.evals = []
        if o == "create":
            one_of = lambda k: op[k + "s"] if k + "s" in op else \
                [op[k]] if op[k] else []                      # noqa: E731
            data = [build(d) for d in one_of("data")]
            fixed = [build(f["sp"]) for f in op["fixed"]]
            floats = [build(f) for f in op["floats"]]
            signal = [build(d) for d in one_of("signal")]
            every = data + fixed + floats + signal
            sps = [simple(s) for s in every]
            probe = Probe(op["mpb"])
            one = op["one"]
            roi = roi_arg(op["roi"], op["bad"])
            if op["bad"] and op["bad"] != "list" and not op["roi"]:
                return
            st = recording(STATS[op["stat"]], log, op["spb"])
            cs = [num(f["c"]) for f in op["fixed"]]
            ok, fit, err = attempt(
                Fit, roi, st, fit_config=global_config(
                    op["globals"], op.get("lone")),
                data=data[0] if data else None,
                fixed_backgrounds=OrderedDict(zip(fixed, cs)),
                floating_backgrounds=floats,
                signal=signal[0] if signal else None, shrink=op["shrink"],
                per_bin=op["pb"], single_bin=one,
                minimiser=probe if op["min"] == "probe" else None)
            log.fit = fit
            note(o, sps=sps, sps2=[simple(s) for s in every], cs=[
                fl(c) for c in cs], nums=[len(data), len(fixed), len(floats),
                                          len(signal)],
                 asked=op["roi"], good=not op["bad"], ok=ok, err=err)
            if not ok:
                return
        elif o == "same_signal":
            s = fit.get_signal()
            if s is None:
                continue
            before = [simple(s)]
            ok, _, err = attempt(fit.set_signal, s, shrink=op["shrink"])
            note("set_signal", sps=before, sps2=[simple(s)],
                 shrink=op["shrink"], ok=ok, err=err)
        elif o in ("set_data", "set_signal", "set_fixed"):
            s = build(op["sps"][0] if "sps" in op else op["sp"])
            before = [simple(s)]
            ok, _, err = attempt(getattr(fit, {
                "set_fixed": "set_fixed_background"}.get(o, o)), s,
                shrink=op["shrink"])
            note(o, sps=before, sps2=[simple(s)], shrink=op["shrink"], ok=ok,
                 err=err)
            stale = stale or o == "set_data"
        elif o in ("make_fixed", "append_fixed"):
            ss = [build(f["sp"]) for f in op["fixed"]]
            cs = [num(f["c"]) for f in op["fixed"]]
            before = [simple(s) for s in ss]
            ok, _, err = attempt(getattr(fit, o + "_background"),
                                 OrderedDict(zip(ss, cs)),
                                 shrink=op["shrink"])
            note(o, sps=before, sps2=[simple(s) for s in ss],
                 cs=[fl(c) for c in cs], shrink=op["shrink"], ok=ok, err=err)
        elif o == "set_floats":
            ss = [build(f) for f in op["floats"]]
            before = [simple(s) for s in ss]
            ok, _, err = attempt(fit.set_floating_backgrounds, ss,
                                 shrink=op["shrink"])
            note(o, sps=before, sps2=[simple(s) for s in ss],
                 shrink=op["shrink"], ok=ok, err=err)
            if ok and not isinstance(fit.get_minimiser(), Probe):
                # the grid of the old parameters does not fit any more
                ok, _, err = attempt(fit.set_minimiser)
                note("set_minimiser", ok=ok, err=err)
        elif o == "remove_signal":
            ok, _, err = attempt(fit.remove_signal)
            note(o, ok=ok, err=err)
        elif o == "set_roi":
            if op["bad"] and op["bad"] != "list" and not op["roi"]:
                continue
            ok, _, err = attempt(fit.set_roi, roi_arg(op["roi"], op["bad"]))
            note(o, asked=op["roi"], good=not op["bad"], ok=ok, err=err)
        elif o == "shrink_all":
            ok, _, err = attempt(fit.shrink_all)
            note(o, ok=ok, err=err)
            stale = True
        elif o == "set_config":
            cfg = global_config(op["globals"])
            for s in fit.get_floating_backgrounds() or []:
                if s.get_fit_config():
                    cfg.add_config(s.get_fit_config())
            want = pars_of(cfg)
            if op["bad"]:
                cfg = SpectraFitConfig("fit", OrderedDict(), "s")
            ok, _, err = attempt(fit.set_fit_config, cfg)
            note(o, asked=want, good=not op["bad"], ok=ok, err=err)
            stale = True
        elif o == "set_minimiser":
            probe = Probe(op["mpb"])
            ok, _, err = attempt(fit.set_minimiser, *(
                (probe,) if op["min"] == "probe" else ()))
            note(o, ok=ok, err=err)
        elif o == "set_stat":
            st = recording(STATS[op["stat"]], log, op["spb"])
            ok, _, err = attempt(fit.set_test_statistic, st)
            note(o, ok=ok, err=err)
        elif o == "check":
            ok, _, err = attempt(fit.check_fitter)
            note(o, ok=ok, err=err)
        elif o == "run":
            if stale and not isinstance(fit.get_minimiser(),
                                        (Probe, type(None))):
                # the grid of the old data does not fit any more
                ok, _, err = attempt(fit.set_minimiser)
                note("set_minimiser", ok=ok, err=err)
                stale = not ok
            do_run(fit, log, op, note)


def do_run(fit, log, op, note):
    cfg = fit.get_fit_config()
    pars = [cfg.get_par(n) for n in cfg.get_pars()]
    m = fit.get_minimiser()
    floats = bool(fit.get_floating_backgrounds())
    how = "fixed"
    asked = []
    if floats and isinstance(m, Probe):
        how = "probe"
        pts = []
        for p in op["points"]:
            pt = []
            for par, f in zip(pars, itertools.cycle(p)):
                vs = values_of(par)
                pt.append(vs[min(len(vs) - 1, int(num(str(f)) * len(vs)))])
            pts.append(pt)
        m.points, m.results = pts, []
        asked = pts
    elif floats and m is not None:
        how = "grid"
        asked = [list(p) for p in itertools.product(
            *[values_of(p) for p in pars])]
        if len(asked) > 40:
            return
    ok, ret, err = attempt(fit.fit)
    evs = []
    for i, e in enumerate(log.evals):
        e = dict(e)
        e.update(vals=[], pen="none", ret=e["stat"])
        if how == "probe" and i < len(m.points):
            e["vals"] = [fl(v) for v in m.points[i]]
            if i < len(m.results):
                e["ret"], e["pen"] = m.results[i]
        elif how == "grid":
            e["vals"] = e["cur"]
            if ok:
                kw = dict((n, float(v)) for n, v in zip(cfg.get_pars(),
                                                        e["cur"]))
                ix = tuple(p.get_value_index(float(v))
                           for p, v in zip(pars, e["cur"]))
                e["pen"] = fl(m.get_penalty_at(**kw))
                e["ret"] = texts(m.get_raw_stat(ix))
        evs.append(e)
    best = [fl(p.get_best_fit()) for p in pars] if how == "grid" and ok \
        else []
    if ok and how == "grid":
        r = texts(ret[0]) + texts(ret[1])
    elif ok and how == "fixed":
        r = texts(ret)
    else:
        r = []
    note("run", how=how, ok=ok, err=err, evs=evs, ret=r, best=best,
         points=len(asked), asked2=[[fl(v) for v in p] for p in asked])
