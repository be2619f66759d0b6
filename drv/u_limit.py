"""Driver: limits (C15)."""
import itertools
import os
import numpy
from collections import OrderedDict
from common import fl, attempt
from u_spectrum import num
from u_convolve import simple
from u_fit import (Frame, build, global_config, roi_arg, state, values_of,
                   STATS, DEAD)
from echidna.fit.fit import Fit
from echidna.limit.limit import Limit
from echidna.output import store as store_module
import echidna.output as output
import echidna.limit.limit as limit_module

TIME_LIMIT = 60


# ------------------------------------------------------------- generation
class Small(Frame):
    def __init__(self, rng):
        Frame.__init__(self, rng)
        n = rng.choice([1, 1, 1, 2])
        self.dims = [list(d) for d in self.dims[:n]]
        if not [d for d in self.dims if d[0] == "energy"]:
            self.dims[0][0] = "energy"
        for d in self.dims:
            d[3] = rng.choice([4, 5, 6]) if d[0] == "energy" else \
                rng.choice([1, 2, 3])
        self.globals = rng.random() < 0.35
        self.cells = 1
        for d in self.dims:
            self.cells *= d[3]
        self.bg = [round(rng.uniform(2, 30), 2) for _ in range(self.cells)]
        k = rng.randrange(self.cells)
        self.sig = [round(rng.uniform(0, 1) ** 2 * 4 + (3 if abs(
            i - k) < 2 else 0), 2) for i in range(self.cells)]

    def spec(self, rng, cells, kind="mc"):
        s = self.spectrum(rng, False, kind)
        s["cells"] = [repr(max(0., round(c, 3))) for c in cells]
        return s

    def data(self, rng):
        x = rng.choice([0, 0, 0.5, 1, 2, 3])
        noise = rng.choice([0, 0.1, 0.3, 0.5])
        c = [(b + x * s) * (1 + noise * rng.uniform(-1, 1))
             for b, s in zip(self.bg, self.sig)]
        if rng.random() < 0.2:
            c = [round(v) for v in c]
        return self.spec(rng, c, rng.choice(["mc", "reco"]))

    def back(self, rng, share=1.):
        s = self.spec(rng, [share * b * rng.uniform(0.9, 1.1)
                            for b in self.bg])
        s["dec"] = repr(round(share * sum(self.bg), 2))
        return s

    def signal(self, rng):
        s = self.spec(rng, self.sig)
        t = sum(self.sig) or 1.
        s["dec"] = repr(round(rng.choice([1, 1, 2, 0.5]) * t, 2))
        lo = rng.choice([0, 0, 0, 0.1, 0.5]) * t
        hi = lo + rng.choice([0.5, 2, 4, 8]) * t
        b = rng.choice([2, 3, 4, 5, 6])
        p = 2
        if rng.random() < 0.15:         # a range of very small scales
            lo, hi, p = lo * 1e-3, hi * 1e-3, 6
        s["rate"] = {"lo": repr(round(lo, p)), "hi": repr(round(hi, p)),
                     "bins": b, "prior": repr(round((lo + hi) / 2, p)),
                     "sigma": "none"}
        return s


def glimit(rng):
    return {"op": "get_limit",
            "thr": repr(rng.choice([2.71, 2.71, 1., 0.5, 5, 20, 0.05, 0,
                                    0, -0.5, 1e5])),
            "zero": rng.choice(["none", "none", "none", "0", "fit", "12.5",
                                "0.25"]),
            "store": rng.random() < 0.35, "fits": rng.random() < 0.4,
            "spectra": rng.random() < 0.25,
            "fname": rng.choice(["", "out", "out.hdf5", "a.b"])}


def garray(rng, n):
    if rng.random() < 0.1:
        n = max(1, n + rng.choice([-1, 1]))
    w = rng.choice([0, 0, 2])
    one = lambda: rng.choice([0, 1, 2, 3, 4, 2.71, round(      # noqa: E731
        rng.uniform(-1, 6), 2), round(rng.uniform(-150, 0), 1)])
    return {"op": "array", "thr": repr(rng.choice([2.71, 2, 3, 0, 100.])),
            "arr": [[repr(one()) for _ in range(w or 1)] for _ in range(n)],
            "nested": bool(w), "as": rng.choice(["list", "array"])}


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        F = Small(rng)
        pb = rng.random() < 0.2
        o = {"op": "create", "roi": F.roi(rng, "all" if pb else ""),
             "globals": [], "pb": pb, "one": not pb and rng.random() < 0.07,
             "stat": rng.choice(["chi", "ll"]), "data": F.data(rng),
             "fixed": [], "floats": []}
        nf = rng.choice([0, 0, 1, 1, 2])
        if rng.random() < 0.6 or nf == 0:
            o["fixed"] = [{"sp": F.back(rng), "c": repr(round(
                sum(F.bg) * (1. if nf == 0 else 0.4), 2))}]
        for i in range(nf):
            s = F.back(rng)
            t = sum(F.bg) * (0.6 if o["fixed"] else 1.) / nf
            b = rng.choice([2, 3, 3, 4]) if nf == 1 else rng.choice([2, 3])
            s["rate"] = {"lo": repr(round(t * 0.7, 2)),
                         "hi": repr(round(t * 1.3, 2)), "bins": b,
                         "prior": repr(round(t, 2)), "sigma": rng.choice(
                             ["none", repr(round(t * 0.1, 2))])}
            if rng.random() < 0.1:
                s["rate"] = None
            o["floats"].append(s)
        if F.globals and [f for f in o["floats"] if f["rate"]]:
            g = [p for p in F.gpars(rng) if p["kind"] == "res"][:1]
            for p in g:
                p["bins"] = min(p["bins"], 2)
                p["dim"] = "energy_mc"
            o["globals"] = g
        o["floats"] = o["floats"] if [f for f in o["floats"] if f["rate"]] \
            or o["globals"] else []
        if not o["floats"] and not o["fixed"]:
            o["fixed"] = [{"sp": F.back(rng), "c": repr(sum(F.bg))}]
        sigs = [F.signal(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        s = [o] + [{"op": "limit", "k": k, "sp": x,
                    "shrink": rng.random() < 0.9}
                   for k, x in enumerate(sigs)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(sigs))
            q = rng.random()
            e = glimit(rng) if q < 0.7 else garray(
                rng, sigs[k]["rate"]["bins"]) if q < 0.8 else \
                {"op": "statistics"} if q < 0.88 else \
                {"op": "fit"} if q < 0.94 else {"op": "remove_signal"}
            e["k"] = k
            s.append(e)
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
NOFILE = {"asked": False, "read": False, "scales": [], "stats": [],
          "pens": [], "bests": [], "fits": []}
NOSPECTRA = {"asked": False, "read": False, "data": [], "fixed": [],
             "floats": [], "signal": []}
NOSIG = {"axes": [], "data": [], "shape": [], "dec": "0"}
BLANK = dict(fits=[], file=NOFILE, files=NOSPECTRA, shrink=True, sig=NOSIG, now=NOSIG,
             scales=[], thr="0", zero="none", pts=[], stats=[],
             pens=[], bests=[], arr=[], val="0", ok=True, err="")


def cells(a):
    try:
        return [fl(v) for v in numpy.array(a, dtype=float).ravel().tolist()]
    except Exception:
        return ["bad"]


def per_scale(res, n):
    """Statistics, penalty terms and best fits at every scale."""
    names = list(res.get_fit_config().get_pars())
    _, rs, _ = attempt(lambda: [cells(x) for x in res.get_stats()])
    _, pens, _ = attempt(lambda: [
        cells(res.get_penalty_terms_at_scale(i)) for i in range(n)])
    _, bests, _ = attempt(lambda: [
        [fl(res.get_best_fit(i, k)) for k in names] for i in range(n)])
    return {"stats": rs or [], "pens": pens or [], "bests": bests or []}


def kept_fits(res, n, asked):
    """The fits kept with a limit, one per scale."""
    out = []
    for i in range(n if asked else 0):
        r = res._fit_results[i]
        e = {"some": r is not None, "low": "bad", "bests": []}
        if e["some"]:
            ok, v, _ = attempt(lambda: fl(numpy.min(r.get_stats())))
            e["low"] = v if ok else "bad"
            ok, v, _ = attempt(lambda: [
                fl(x["best_fit"]) for x in r.get_summary().values()])
            e["bests"] = v if ok else ["bad"]
        out.append(e)
    return out


def read_file(where, op, n, asked):
    """The limit's stored results, read back."""
    e = dict(NOFILE, asked=bool(asked))
    if not asked:
        return e
    names = [f for f in os.listdir(where) if f.endswith(".hdf5") and
             not f.endswith(PARTS)]
    if op["fname"]:
        want = op["fname"] + ("" if op["fname"].endswith(".hdf5")
                              else ".hdf5")
        names = [f for f in names if f == want]
    if len(names) != 1:
        return e
    ok, res, _ = attempt(store_module.load_limit_results,
                         os.path.join(where, names[0]))
    if ok:
        ok, v, _ = attempt(lambda: [fl(x) for x in res.get_scales()])
        e.update(per_scale(res, n), read=True, scales=v or [],
                 fits=kept_fits(res, n, op["fits"]))
    return e


def read_spectra(where, fit, sig, asked):
    """The stored spectra of the fit, read back."""
    e = dict(NOSPECTRA, asked=bool(asked))
    if not asked:
        return e

    def get(s, part):
        return simple(store_module.load(os.path.join(
            where, s.get_name() + part)))
    for k, ss, part in [("data", [fit.get_data()], PARTS[0]),
                        ("fixed", [fit.get_fixed_background()], PARTS[1]),
                        ("floats", fit.get_floating_backgrounds() or [],
                         PARTS[2]), ("signal", [sig], PARTS[3])]:
        ok, v, _ = attempt(lambda: [get(s, part) for s in ss if s])
        if not ok:
            return e
        e[k] = v
    e["read"] = True
    return e


PARTS = ("_data.hdf5", "_fixed.hdf5", "_float.hdf5", "_signal.hdf5")


def points(fit):
    if not fit.get_floating_backgrounds():
        return [[]]
    cfg = fit.get_fit_config()
    return [[fl(v) for v in p] for p in itertools.product(
        *[values_of(cfg.get_par(n)) for n in cfg.get_pars()])]


def run(seq, rec):
    fit, one, limits = None, False, {}
    output.__default_save_path__ = os.environ.get("VT_CWD", ".")
    limit_module.output.__default_save_path__ = output.__default_save_path__

    def note(op, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, st=state(fit, one), **e)

    for op in seq:
        o = op["op"]
        if o == "create":
            one = op["one"]
            fixed = [build(f["sp"]) for f in op["fixed"]]
            ok, fit, err = attempt(
                Fit, roi_arg(op["roi"], ""), STATS[op["stat"]](
                    per_bin=op["pb"]),
                fit_config=global_config(op["globals"]),
                data=build(op["data"] if "data" in op else op["datas"][0]),
                fixed_backgrounds=OrderedDict(zip(
                    fixed, [num(f["c"]) for f in op["fixed"]])),
                floating_backgrounds=[build(f) for f in op["floats"]],
                per_bin=op["pb"], single_bin=one)
            note(o, ok=ok, err=err)
            if not ok:
                return
            continue
        if o == "limit":
            s = build(op["sp"])
            before = simple(s)
            kw = {} if op.get("shrink", True) else {"shrink": False}
            ok, lim, err = attempt(Limit, s, fit, **kw)
            note(o, sig=before, shrink=not kw, ok=ok, err=err)
            if not ok:
                return
            limits[op["k"]] = (s, lim)
            continue
        if o in ("fit", "remove_signal"):
            ok, _, err = attempt(getattr(fit, o))
            note("other", ok=ok, err=err)
            continue
        s, lim = limits[op["k"]]
        par = s.get_fit_config().get_par("rate")
        scales = [fl(v) for v in values_of(par)]
        before = simple(s)
        if o == "get_limit":
            kw = {}
            zero = op["zero"]
            if zero == "fit":
                attempt(fit.remove_signal)
                ok, r, err = attempt(fit.fit)
                note("other", ok=ok, err=err)
                if not ok:
                    return
                r = r[0] if type(r) is tuple else r
                kw["min_stat"] = r
                zero = fl(sum(numpy.array(r).ravel().tolist()))
            elif zero != "none":
                if fit._per_bin:
                    zero = "none"
                else:
                    kw["min_stat"] = num(zero)
            if op["fname"]:
                kw["limit_fname"] = os.path.join(
                    output.__default_save_path__, op["fname"])
            pts = points(fit)
            where = output.__default_save_path__
            for f in os.listdir(where):
                if f.endswith(".hdf5") and not f.endswith(PARTS):
                    os.remove(os.path.join(where, f))
            ok, val, err = attempt(
                lim.get_limit, limit=num(op["thr"]), store_limit=op["store"],
                store_fits=op["fits"], store_spectra=op["spectra"], **kw)
            res = lim._limit_results
            done = ok or err == "LimitError"
            note(o, sig=before, scales=scales, thr=op["thr"], zero=zero,
                 pts=pts, fits=kept_fits(res, len(scales), op["fits"]),
                 file=read_file(where, op, len(scales), op["store"] and done),
                 files=read_spectra(where, fit, s, op["spectra"] and done),
                 val=fl(val) if ok else "0", ok=ok, err=err, now=simple(s),
                 **per_scale(res, len(scales)))
        elif o == "array":
            arr = [[num(v) for v in e] for e in op["arr"]]
            a = [numpy.array(e) for e in arr] if op["nested"] else \
                [e[0] for e in arr]
            if op["as"] == "array":
                a = numpy.array(a)
            ok, val, err = attempt(lim.get_array_limit, a, num(op["thr"]))
            note(o, sig=before, scales=scales, thr=op["thr"], arr=op["arr"],
                 val=fl(val) if ok else "0", ok=ok, err=err)
        elif o == "statistics":
            pts = points(fit)
            ok, val, err = attempt(lim.get_statistics)
            note(o, sig=before, scales=scales, pts=pts,
                 stats=[cells(v) for v in val] if ok else [], ok=ok, err=err)
