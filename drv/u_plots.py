"""Driver: plots of spectra, fit results and limit results (C27)."""
import builtins
import io
import json
import os
import sys
from collections import OrderedDict
import numpy
from common import fl, it, tx, flat, attempt
from u_spectrum import num, make
from u_convolve import simple
import u_grid
import rt
from echidna.core import parameter
from echidna.core.config import (SpectraConfig, SpectraFitConfig,
                                 GlobalFitConfig)
from echidna.fit.fit_results import LimitResults
from echidna.fit.minimise import GridSearch
from echidna.output import plot, plot_root, store
from echidna import utilities
import ROOT
import matplotlib.pyplot as plt


# ------------------------------------------------------------- generation
def gspec(rng, axes=None):
    if axes is None:
        axes = []
        for n in rng.sample(["energy_mc", "radial3_mc", "time_mc"],
                            rng.choice([1, 2, 2, 3])):
            lo = rng.choice(["0", "0.5", "1", "0.1", repr(round(
                rng.uniform(0, 3), 2))])
            w = rng.choice(["0.1", "0.3", "1", "0.05", repr(round(
                rng.uniform(0.01, 2), 3))])
            b = rng.choice([1, 2, 3, 4, 5, 7, 10] if len(axes) else
                           [2, 3, 5, 6, 7, 10, 12])
            axes.append({"n": n, "lo": lo, "b": b, "hi": repr(round(
                float(lo) + b * float(w), 6))})
    n = 1
    for a in axes:
        n *= a["b"]
    return {"op": "spectrum", "axes": axes, "dec": "10",
            "name": rng.choice(["Te130_mc", "U238_mc", "B8"]),
            "label": rng.choice(["", "", "some label"]),
            "cells": [rng.choice(["0", "1", "2.5", repr(round(
                rng.uniform(0, 40), 3))]) for _ in range(n)]}


def grange(rng):
    return rng.choice(["same", "same", "same", "same", "low", "high",
                       "bins"])


def vary(rng, s):
    """Another spectrum with the same axes, or one of them different."""
    axes = [dict(a) for a in s["axes"]]
    a, how = rng.choice(axes), grange(rng)
    if how == "low":
        a["lo"] = repr(float(a["lo"]) - 0.25)
    elif how == "high":
        a["hi"] = repr(float(a["hi"]) + 0.25)
    elif how == "bins":
        a["b"] += 1
    if rng.random() < 0.3:
        a = rng.choice(axes)
        a["n"] = a["n"].replace("_mc", rng.choice(["_reco", "_truth"]))
    return gspec(rng, axes)


def gfit(rng):
    m = u_grid.gmake(rng)
    while len(m["pars"]) > 3 or len(m["ss"]) > 2:
        m = u_grid.gmake(rng)
    sh = [p["bins"] for p in m["pars"]]
    n, nb = u_grid.prod(sh), u_grid.prod(m["ss"]) if m["pb"] else 1
    return {"op": "fit", "grid": m,
            "table": u_grid.gvals(rng, n * nb, rng.choice(["rand", "neg"])),
            "ptable": u_grid.gvals(rng, n, "rand"),
            "best": [rng.randint(0, k - 1) for k in sh],
            "order": rng.sample(range(len(sh)), len(sh))}


def glimit(rng):
    ns, k = rng.randint(1, 6), rng.randint(1, 3)
    one = lambda: repr(round(rng.uniform(-5, 20), 3))         # noqa: E731
    return {"op": "limit", "ns": ns,
            "wide": rng.choice([0, 0, 3]),
            "pars": [{"prior": one(), "sigma": rng.choice(
                ["none", "0.5", "2", "7"])} for _ in range(k)],
            "stats": [one() for _ in range(ns * 3)],
            "pens": [one() for _ in range(ns * k)],
            "bests": [one() for _ in range(ns * k)]}


def gplot(rng, have, spc, fit, lim):
    nspec = len(spc)
    what = rng.choice(have)
    g = rng.random() < 0.3
    if what == "spectrum":
        i = rng.randrange(nspec)
        names = [a["n"] for a in spc[i]["axes"]]
        op = rng.choice(["root_projection", "projection", "root_surface",
                         "surface", "spectral", "spectral", "root_spectral",
                         "root_spectral"])
        o = {"op": op, "i": i, "d1": rng.choice(names), "d2": "",
             "graphical": g, "name": rng.choice(["", "", "nm"])}
        if op.endswith("surface"):
            if len(names) < 2:
                o["op"] = "projection"
            else:
                o["d1"], o["d2"] = rng.sample(names, 2)
        if op.endswith("spectral"):
            if rng.random() < 0.4:
                o["d1"] = spc[0]["axes"][0]["n"]
            o["items"] = [{"i": k, "type": rng.choice(
                ["background", "background", "signal"]),
                "label": rng.choice(["", "L%d" % k])}
                for k in rng.sample(range(nspec), rng.randint(1, nspec))]
            o["lim"] = rng.choice([-1, -1] + list(range(nspec)))
            b = [a["b"] for s in spc for a in s["axes"]
                 if a["n"] == o["d1"]][0]
            o["calc"] = u_grid.gvals(rng, b, "dyadic") \
                if rng.random() < 0.3 else []
        return o
    if what == "fit":
        sh = [p["bins"] for p in fit["grid"]["pars"]]
        k = len(sh)
        op = rng.choice(["raw_vs_par", "full_vs_par", "pen_vs_par"]
                        if k == 1 else ["raw_vs_pars", "full_vs_pars"])
        if fit["grid"]["pb"] and rng.random() < 0.7:
            op = "per_bin"
        a, b = rng.sample(range(k), 2) if k > 1 else (0, 0)
        ss = len(fit["grid"]["ss"])
        x, y = (0, -1) if ss == 1 else rng.sample([0, 1], 2)
        return {"op": op, "p1": a, "p2": b, "graphical": g,
                "fix": [rng.randint(0, n - 1) for n in sh],
                "x": x, "y": y, "best": rng.random() < 0.5}
    if what == "limit":
        return {"op": rng.choice(["stats_vs_scale", "best_vs_scale",
                                  "sigmas_vs_scale", "sigmas_vs_scale",
                                  "pen_vs_scale", "summary"]),
                "p1": rng.randrange(len(lim["pars"])), "graphical": g}
    b = rng.randint(1, 6)
    return {"op": "chi_per_bin", "calc": u_grid.gvals(rng, b, "dyadic"),
            "lo": "0.5", "hi": repr(0.5 + b), "graphical": g,
            "name": rng.choice(["", "nm"])}


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        s, have, fit, lim = [], [], None, None
        first = gspec(rng)
        k = rng.choice([1, 2, 3])
        if rng.random() < 0.6:
            have += ["spectrum"] * 3
            s.append(first)
            s += [vary(rng, first) if rng.random() < 0.5 else
                  gspec(rng, first["axes"]) for _ in range(k - 1)]
        spc = list(s)
        if rng.random() < 0.5 or not have:
            fit = gfit(rng)
            s.append(fit)
            have += ["fit"] * 2
        if rng.random() < 0.5:
            lim = glimit(rng)
            s.append(lim)
            have += ["limit"] * 2
        if rng.random() < 0.2:
            have.append("other")
        for _ in range(rng.randint(2, 6)):
            s.append(gplot(rng, have, spc, fit, lim))
            if "spectrum" in have and rng.random() < 0.2:
                s.append({"op": "scale", "i": rng.randrange(k),
                          "to": rng.choice(["1", "5", "20", "3.3"])})
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
NOFIT = {"vals": [], "ss": [], "pb": False, "stats": [], "pens": [],
         "best": [], "names": [], "bpens": []}
NOLIM = {"scales": [], "stats": [], "pens": [], "bests": [], "prior": [],
         "sigma": [], "names": []}
BLANK = {"i": 0, "d1": "", "d2": "", "items": [], "lim": -1, "calc": [],
         "p1": 0, "p2": 0, "fix": [], "x": 0, "y": -1, "best": False,
         "lo": "0", "hi": "1", "name": "", "to": "1", "graphical": False}
NOTHING = {"hists": [], "mesh": [], "graphs": [], "bands": [], "files": []}


def nums(a):
    try:
        return [fl(v) for v in numpy.array(a, dtype=float).ravel().tolist()]
    except Exception:
        return ["bad"]


def hist(h, label=""):
    """A ROOT histogram as edges per axis and contents."""
    return {"label": label, "title": tx(h._name), "stray": h._stray(),
            "edges": [[fl(lo + k * (hi - lo) / n) for k in range(n + 1)]
                      for n, lo, hi in h._axes], "cells": nums(h._cells())}


def drawn(fig):
    """The contents of a figure."""
    out = {"hists": [], "mesh": [], "graphs": [], "bands": [], "files": []}
    for ax in fig.axes:
        for kind, c in ax.artists:
            if kind == "hist":
                out["hists"].append({
                    "label": tx(c["label"] or ""), "title": "", "stray": 0,
                    "edges": [nums(c["edges"])], "cells": nums(c["counts"])})
            elif kind == "mesh":
                out["mesh"].append({
                    "xl": tx(ax.texts.get("x", "")).split(" ")[0],
                    "yl": tx(ax.texts.get("y", "")).split(" ")[0],
                    "x": [nums(r) for r in c["x"]],
                    "y": [nums(r) for r in c["y"]],
                    "c": [nums(r) for r in c["c"]]})
            elif kind == "between":
                out["bands"].append({k: nums(c[k])
                                     for k in ("x", "low", "high")})
            elif kind == "plot":
                out["graphs"].append({"x": nums(c["x"]), "y": nums(c["y"])})
    return out


def word(t):
    """The text, as a new object (read from a file, say)."""
    return "".join(list(t))


class Calculator(object):
    def __init__(self, v):
        self._v = v

    def get_chi_squared_per_bin(self):
        return numpy.array([num(x) for x in self._v])


def mkfit(o):
    m = o["grid"]
    cfg, sc = u_grid.make(m)
    names = list(cfg.get_pars())
    g = GridSearch(cfg, sc, per_bin=m["pb"])
    full = cfg.get_shape() + (sc.get_shape() if m["pb"] else ())
    g.set_stats(numpy.array([num(x) for x in o["table"]]).reshape(full))
    g.set_penalty_terms(numpy.array(
        [num(x) for x in o["ptable"]]).reshape(cfg.get_shape()))
    for n, b in zip(names, o["best"]):
        p = cfg.get_par(n)
        p.set_best_fit(p.get_value_at(b))
        p.set_penalty_term(0.5)
    return g


def mklimit(o):
    pars = OrderedDict(
        ("r%d_rate" % i, {"par": parameter.RateParameter(
            "r%d_rate" % i, num(p["prior"]),
            None if p["sigma"] == "none" else num(p["sigma"]), -9., 30., 3),
            "type": "spectra"}) for i, p in enumerate(o["pars"]))
    cfg = GlobalFitConfig("lfit", pars)
    lim = SpectraFitConfig("lim", OrderedDict([
        ("rate", parameter.RateParameter("rate", 1., None, 0.5, 7.,
                                         o["ns"]))]), "signal")
    r = LimitResults(cfg, SpectraConfig("sc", OrderedDict([
        ("energy_mc", parameter.SpectraParameter("energy_mc", 0., 3., 3))])),
        lim)
    w = o["wide"]
    if w:
        r._stats = numpy.zeros((o["ns"], w))
    for i in range(o["ns"]):
        v = [num(x) for x in o["stats"][3 * i:3 * i + 3]]
        r.set_limit_stat(i, numpy.array(v) if w else v[0])
        for k, n in enumerate(pars):
            j = i * len(pars) + k
            r.set_best_fit(i, num(o["bests"][j]), n)
            r.set_penalty_term(i, num(o["pens"][j]), n)
    return r


def run(seq, rec):
    sps, fit, lim, n, seen = [], None, None, [100], []
    plt.close("all")
    del ROOT._drawn[:]

    def states():
        f, l = NOFIT, NOLIM
        if fit is not None:
            c = fit.get_fit_config()
            f = {"names": list(c.get_pars()), "pb": bool(fit._per_bin),
                 "vals": [nums(c.get_par(p).get_values())
                          for p in c.get_pars()],
                 "ss": [it(b) for b in fit.get_spectra_config().get_shape()],
                 "stats": nums(fit.get_raw_stat(())),
                 "pens": nums(fit.get_penalty_terms(list(c.get_pars())[0])),
                 "best": [fl(c.get_par(p).get_best_fit())
                          for p in c.get_pars()], "bpens": []}
        if lim is not None:
            c = lim.get_fit_config()
            ps = [c.get_par(p) for p in c.get_pars()]
            l = {"names": list(c.get_pars()), "scales": nums(lim.get_scales()),
                 "stats": [nums(s) for s in lim.get_stats()],
                 "pens": [nums(lim.get_penalty_terms(p))
                          for p in c.get_pars()],
                 "bests": [nums(lim.get_best_fits(p)) for p in c.get_pars()],
                 "prior": [fl(p.get_prior()) for p in ps],
                 "sigma": ["none" if p.get_sigma() is None
                           else fl(p.get_sigma()) for p in ps]}
        return {"sps": [dict(simple(s), name=tx(s.get_name()), label=tx(
            s.get_style().get("label", ""))) for s in sps],
            "fit": f, "lim": l}

    def note(o, ok, err, pic=None):
        e = dict(BLANK)
        e.update({k: o[k] for k in o if k in BLANK})
        e["items"] = [[x["i"] + 1, x["type"], x["label"]]
                      for x in o.get("items", [])]
        rec.event(op=o["op"], ok=ok, err=err, pic=pic or NOTHING,
                  st=states(), seen=list(seen), **e)

    def picture(o):
        op, g = o["op"], o.get("graphical", False)
        del ROOT._drawn[:], seen[:]
        n[0] += 1
        out = {k: [] for k in NOTHING}
        nm = {"h_name": o["name"]} if o.get("name") else {}
        if op in ("projection", "surface"):
            a = [o["d1"]] + ([o["d2"]] if op == "surface" else [])
            f = plot.plot_projection if op == "projection" else \
                plot.plot_surface
            return drawn(f(sps[o["i"]], *a, fig_num=n[0], show_plot=g))
        if op == "root_projection":
            out["hists"] = [hist(plot_root.plot_projection(
                sps[o["i"]], o["d1"], graphical=g, **nm))]
        elif op == "root_surface":
            out["hists"] = [hist(plot_root.plot_surface(
                sps[o["i"]], o["d1"], o["d2"], graphical=g, **nm))]
        elif op == "spectral":
            d = OrderedDict()
            for k, x in enumerate(o["items"]):
                d["s%d" % k] = {"spectra": sps[x["i"]],
                                "type": word(x["type"])}
                if x["label"]:
                    d["s%d" % k]["label"] = x["label"]
            kw = {}
            if o["lim"] >= 0:
                kw["limit"] = sps[o["lim"]]
            if o["calc"]:
                kw["calculator"] = Calculator(o["calc"])
            return drawn(plot.spectral_plot(
                d, o["d1"], fig_num=n[0], show_plot=g, **kw))
        elif op == "root_spectral":
            d = OrderedDict(
                ("s%d" % k, {"spectra": sps[x["i"]], "label": x["label"],
                             "type": word(x["type"]), "style": {"color": 2}})
                for k, x in enumerate(o["items"]))
            kw = {"limit": sps[o["lim"]]} if o["lim"] >= 0 else {}
            plot_root.spectral_plot(d, o["d1"].rsplit("_", 1)[0], **kw)
            out["hists"] = [hist(h) for h in ROOT._drawn
                            if isinstance(h, ROOT.TH1D)]
        elif op in ("raw_vs_par", "full_vs_par", "pen_vs_par"):
            f = {"raw_vs_par": plot_root.plot_raw_stats_vs_par_scale,
                 "full_vs_par": plot_root.plot_stats_vs_par_scale,
                 "pen_vs_par": plot_root.plot_penalty_term_vs_par_scale}[op]
            r = f(fit, list(fit.get_fit_config().get_pars())[0], graphical=g)
            out["graphs"] = [{"x": nums(r._x), "y": nums(r._y)}]
        elif op in ("raw_vs_pars", "full_vs_pars"):
            c = fit.get_fit_config()
            names = list(c.get_pars())
            kw = {names[k]: c.get_par(names[k]).get_value_at(j)
                  for k, j in enumerate(o["fix"])
                  if k not in (o["p1"], o["p2"])}
            f = plot_root.plot_raw_stats_vs_pars if op == "raw_vs_pars" \
                else plot_root.plot_stats_vs_pars
            out["hists"] = [hist(f(fit, names[o["p1"]], names[o["p2"]],
                                   graphical=g, **kw))]
        elif op == "per_bin":
            c = fit.get_fit_config()
            sc = list(fit.get_spectra_config().get_pars())
            kw = {"x_dim": sc[o["x"]]}
            if o["y"] >= 0:
                kw["y_dim"] = sc[o["y"]]
            if not o["best"]:
                kw["min_chisq"] = False
                for p, j in zip(c.get_pars(), o["fix"]):
                    kw[p] = c.get_par(p).get_value_at(j)
            out["hists"] = [hist(plot_root.plot_per_bin(
                fit, graphical=g, **kw))]
        elif op == "chi_per_bin":
            out["hists"] = [hist(plot_root.plot_chi_squared_per_bin(
                Calculator(o["calc"]), len(o["calc"]), num(o["lo"]),
                num(o["hi"]), graphical=g, **nm))]
        elif op == "summary":
            return summary()
        else:
            par = list(lim.get_fit_config().get_pars())[o["p1"]]
            f, a = {"stats_vs_scale": (plot_root.plot_stats_vs_scale, []),
                    "best_vs_scale": (plot_root.plot_best_fit_vs_scale,
                                      [par]),
                    "sigmas_vs_scale": (
                        plot_root.plot_sigma_best_fit_vs_scale, [par]),
                    "pen_vs_scale": (plot_root.plot_penalty_term_vs_scale,
                                     [par])}[op]
            r = f(lim, *a, graphical=g)
            out["graphs"] = [{"x": nums(r._x), "y": nums(r._y)}]
        return out

    def summary():
        """The script plot_summary.py on the stored limit results."""
        if os.path.isdir("sum"):
            for f in os.listdir("sum"):
                os.remove(os.path.join("sum", f))
        else:
            os.mkdir("sum")
        store.dump_limit_results("fd5.hdf5", lim)
        path = os.path.join(rt.REPO, "echidna", "scripts", "plot_summary.py")
        old = sys.argv
        sys.argv = [path, "-f", "fd5.hdf5", "-s", "sum/"]
        utilities.logger_set = True
        try:
            exec(compile(rt.load_source(path), path, "exec"),
                 {"__name__": "__main__", "__file__": path})
        except SystemExit:
            raise ValueError("SystemExit")
        finally:
            sys.argv = old
        out = {k: [] for k in NOTHING}
        for f in sorted(os.listdir("sum")):
            with open(os.path.join("sum", f)) as h:
                for x, y in json.load(h):
                    out["files"].append({"n": f, "x": nums(x), "y": nums(y)})
        return out

    here = os.getcwd()
    real = builtins.input, sys.stdout, plt.show

    def prompt(*a):
        """The user looks at the screen and presses return."""
        seen.append(len(ROOT._drawn))
        return ""

    def show(*a, **k):
        seen.append(sum(len(x.artists) for x in plt.gcf().axes))

    try:
        os.chdir(os.environ.get("VT_CWD", "."))
        builtins.input, plt.show = prompt, show
        sys.stdout = io.StringIO()
        for o in seq:
            op = o["op"]
            if op == "spectrum":
                s, _ = make(o["axes"], o["dec"], o["name"])
                shp = tuple(a["b"] for a in o["axes"])
                s._data = numpy.array([num(c) for c in o["cells"]]
                                      ).reshape(shp)
                s.set_style({"color": "red", "label": o["label"]}
                            if o["label"] else {"color": "red"})
                sps.append(s)
                note(o, True, "")
            elif op == "fit":
                fit = mkfit(o)
                note(o, True, "")
            elif op == "limit":
                lim = mklimit(o)
                note(o, True, "")
            elif op == "scale":
                ok, _, err = attempt(sps[o["i"]].scale, num(o["to"]))
                note(o, ok, err)
            else:
                if op == "root_spectral" and o["items"] == []:
                    continue
                ok, pic, err = attempt(picture, o)
                note(dict(o, i=o.get("i", 0) + 1, lim=o.get("lim", -1) + 1,
                          p1=o.get("p1", 0) + 1, p2=o.get("p2", 0) + 1,
                          x=o.get("x", 0) + 1, y=o.get("y", -1) + 1),
                     ok, err, pic if ok else None)
    finally:
        builtins.input, sys.stdout, plt.show = real
        os.chdir(here)
