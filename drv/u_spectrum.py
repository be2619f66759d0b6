"""Driver: spectra (C01..C06)."""
import copy
import math
import numpy
from common import fl, it, flat, shape, attempt
from echidna.core import spectra
from echidna.core.config import SpectraConfig
from echidna.core.scale import Scale
from echidna.core.shift import Shift
from echidna.core import smear
from collections import OrderedDict


def num(t):
    if t in ("nan", "inf", "-inf"):
        return float(t)
    if "/" in t:
        a, b = t.split("/")
        return float(a) / float(b)
    try:
        return int(t)
    except ValueError:
        return float(t)


# ------------------------------------------------------------- generation
NAMES = ["energy_mc", "radial_mc", "x_reco", "alpha_beta_truth", "y_mc",
         "energy_reco", "radial_reco", "radial3_mc", "x_mc"]
MIX = {  # op weights per profile
    "fill":    dict(fill=10, badfill=5, shrink=1, rebin=1, copy=1, scale=1),
    "shrink":  dict(fill=3, shrink=8, cut=3, roi=4, badshrink=4, rebin=1,
                    copy=1, scale=1),
    "rebin":   dict(fill=3, rebin=8, badrebin=6, shrink=2, copy=1),
    "project": dict(fill=2, project=5, surface=4, ndproject=6, badproject=1,
                    interpolate=2, shrink=1, rebin=1, copy=1),
    "norm":    dict(fill=2, scale=5, shrink=2, cut=4, copy=2, add=6, new=2,
                    badadd=5, roi=1, rebin=1),
    "alias":   dict(fill=4, shrink=3, cut=2, roi=2, rebin=3, scale=2, copy=3,
                    derive=4, add=2, shared=1, project=1),
}


def gen_axis(rng, name):
    r = rng.random()
    if r < 0.4:         # edges are exact
        b = rng.choice([1, 2, 4, 8])
        w = 2.0 ** rng.randint(-4, 3)
        lo = rng.randint(-6, 12) * w * rng.choice([1, 1, 0.5])
        return {"n": name, "lo": repr(lo), "hi": repr(lo + b * w), "b": b,
                "x": 1}
    b = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 12])
    if r < 0.7:
        lo = round(rng.uniform(-3, 5), 1)
        hi = round(lo + rng.choice([0.3, 0.7, 1.0, 2.5, 7.9]), 1)
    elif r < 0.8:       # narrow bins a long way from zero, or next to it
        if r < 0.76:
            lo = round(rng.uniform(1000, 90000), 3) * rng.choice([1, 1, -1])
            w = rng.choice([0.002, 0.01, 0.05])
        else:
            w = rng.choice([1e-10, 3e-9, 5e-8])
            lo = rng.choice([0, 3, 100, -5]) * w
        hi = lo + b * w
    else:
        lo = round(rng.uniform(-50, 2000), 3)
        hi = lo + round(rng.uniform(0.5, 3000), 2)
    return {"n": name, "lo": repr(lo), "hi": repr(hi), "b": b, "x": 0}


def gen_axes(rng, big=False):
    k = rng.choice([1, 2, 2, 3, 3, 4] if not big else [2, 3, 4, 4])
    while True:
        pool = NAMES[:5] if rng.random() < 0.6 else \
            [NAMES[5], NAMES[6], NAMES[7], NAMES[8], NAMES[3]]
        if rng.random() < 0.25:         # a name that starts with another
            pool = ["energy_mc", "energy_mc_reco", "x_mc", "energy_mc_x_mc"]
        names = list(pool)
        rng.shuffle(names)
        axes = [gen_axis(rng, n) for n in names[:k]]
        p = 1
        for a in axes:
            p *= a["b"]
        if p <= 120:
            return axes


def gen_new(rng, axes):
    return {"op": "new", "axes": axes, "raw": rng.randint(0, 50),
            "dec": rng.choice(["8", "1", repr(round(rng.uniform(1, 500), 2)),
                               str(rng.randint(1, 1000))])}


def gen_fillval(rng, a):
    """A position in bins, away from inexact edges."""
    b = a["b"]
    k = rng.randrange(b)
    if rng.random() < 0.15:
        k = b - 1
    if a["x"] and rng.random() < 0.4:
        return k
    if rng.random() < 0.04:
        return "last"           # the largest number below the upper edge
    return k + rng.choice([0.5, 0.25, rng.uniform(0.02, 0.98), 1e-6, 1 - 1e-6])


def gen_op(rng, kind, base):
    i = rng.randrange(4)
    if kind == "fill":
        return {"op": "fill", "i": i, "pos": [gen_fillval(rng, a)
                                              for a in base],
                "w": rng.choice(["default", "2", "0.5",
                                 repr(round(rng.uniform(0, 9), 3)),
                                 repr(round(rng.uniform(0, 9), 3)),
                                 "0", "-0.25", "1e-7", "12345.75"])}
    if kind == "badfill":
        return {"op": "fill", "i": i, "pos": [gen_fillval(rng, a)
                                              for a in base], "w": "3",
                "bad": [rng.choice(["high", "high", "above", "below", "nan",
                                    "inf", "missing", "extra", "far",
                                    "rename", "extratype", "retype"]),
                        rng.randrange(4)]}
    if kind in ("shrink", "cut", "roi", "badshrink"):
        bad = kind == "badshrink"
        o = {"op": "shrink" if bad and rng.random() < 0.6 else
             rng.choice(["cut", "roi", "shrink"]) if bad else kind,
             "i": i, "rq": []}
        n = 1 if o["op"] == "roi" else rng.choice([1, 1, 2, 3])
        for _ in range(n):
            ax = rng.randrange(4)
            f0, f1 = sorted([rng.random(), rng.random()])
            kinds = ["edge", "edge", "in", "in", "in", "hair", "tol"]
            which = ["low", "high"] if o["op"] == "roi" else \
                rng.choice([["low", "high"], ["low", "high"], ["low"],
                            ["high"]])
            for w in which:
                kd = rng.choice(kinds)
                o["rq"].append({"ax": ax, "w": w, "k": kd,
                                "f": f0 if w == "low" else f1,
                                "fr": rng.choice([0.5, 0.1, 0.25, 0.9, 0.97,
                                                  0.03, 0.995, 0.004,
                                                  round(rng.uniform(.02, .98),
                                                        3)])})
        if bad:
            j = rng.randrange(len(o["rq"]))
            o["rq"][j]["k"] = rng.choice(["beyond", "beyond", "slightly",
                                          "unknown", "word", "reverse"])
        return o
    if kind == "rebin":
        return {"op": "rebin", "i": i, "dv": [rng.randrange(60)
                                              for _ in range(4)]}
    if kind == "badrebin":
        return {"op": "rebin", "i": i, "dv": [rng.randrange(60)
                                              for _ in range(4)],
                "bad": [rng.choice(["value", "value", "larger", "short",
                                    "long", "zero", "minus"]),
                        rng.randrange(4),
                        rng.randint(2, 7)]}
    if kind == "scale":
        return {"op": "scale", "i": i,
                "to": rng.choice(["1", "100", "3.5", "1/3", "0.001", "7",
                                  repr(round(rng.uniform(0.1, 1e4), 3))])}
    if kind == "copy":
        return {"op": "copy", "i": i}
    if kind == "add":
        return {"op": "add", "i": i, "j": rng.randrange(4)}
    if kind == "badadd":     # a partner that differs in one respect
        return {"op": "addnew", "i": i, "ax": rng.randrange(4),
                "change": rng.choice(["low", "high", "bins", "name", "drop",
                                      "extra", "swap", "type", "none",
                                      "both", "shift"])}
    if kind == "new":
        return gen_new(rng, base if rng.random() < 0.5 else gen_axes(rng))
    if kind == "shared":
        return {"op": "shared", "i": i, "dec": "5"}
    if kind == "derive":
        return {"op": "derive", "i": i, "ax": rng.randrange(4),
                "by": rng.choice(["scale", "shift", "shiftbin", "smearR",
                                  "smearE", "smearL", "randE", "randL"]),
                "v": round(rng.uniform(0.8, 1.2), 3)}
    if kind == "interpolate":
        return {"op": "interpolate", "i": i, "axs": [rng.randrange(4)],
                "k": rng.randint(1, 4), "named": rng.random() < 0.8}
    if kind in ("project", "surface", "ndproject", "badproject"):
        ks = list(range(4))
        rng.shuffle(ks)
        return {"op": kind if kind != "badproject" else
                rng.choice(["project", "surface", "ndproject"]), "i": i,
                "axs": ks[:rng.randint(1, 4)],
                "bad": kind == "badproject"}
    raise ValueError(kind)


def gen(profile, rng, n):
    mix = MIX[profile]
    kinds = [k for k in sorted(mix) for _ in range(mix[k])]
    seqs = []
    for _ in range(n):
        base = gen_axes(rng, profile == "project")
        s = [gen_new(rng, base)]
        for _ in range(rng.randint(2, 7)):
            s.append(gen_op(rng, "fill", base))
        for _ in range(rng.randint(3, 12)):
            s.append(gen_op(rng, rng.choice(kinds), base))
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
def make(axes, dec, name="spec_mc", raw=0):
    d = OrderedDict()
    for a in axes:
        d[a["n"]] = {"low": num(a["lo"]), "high": num(a["hi"]),
                     "bins": int(a["b"])}
    cfg = SpectraConfig.load({"parameters": d})
    s = spectra.Spectra(name, num(dec), cfg)
    s._raw_events = raw
    return s, cfg


def axes_of(s):
    cfg = s.get_config()
    out = []
    for n in list(cfg.get_pars()):
        p = cfg.get_par(n)
        out.append({"n": n, "lo": fl(p.get_low()), "hi": fl(p.get_high()),
                    "b": it(p.get_bins())})
    return out


def proj(s):
    a = axes_of(s)
    rois = []
    for x in a:
        ok, r, _ = attempt(s.get_roi, x["n"])
        if ok:
            rois.append({"n": x["n"], "lo": fl(r["low"]), "hi": fl(r["high"]),
                         "eff": fl(r["efficiency"])})
    return {"axes": a, "data": flat(s.get_data()), "shape": shape(s.get_data()),
            "dec": fl(s.get_num_decays()), "sum": fl(s.sum()),
            "raw": it(s._raw_events), "rois": rois}


BLANK = dict(i=0, j=0, axes=[], dec="0", w="0", vals=[], req=[], bins=[],
             to="0", names=[], ret=[], rshape=[], raw=0, ok=True, err="",
             what="")


def bins_pos(a, p):
    lo, hi = num(a["lo"]), num(a["hi"])
    if p == a["b"]:
        return hi
    return lo + p * ((hi - lo) / a["b"])


def resolve_req(rq, axes):
    """Concrete requests [{n, w, v}] from the generator's description."""
    out, seen = [], set()
    for r in rq:
        if "n" in r:                # from the specification: bins of the axis
            a = [x for x in axes if x["n"] == r["n"]][0]
            v = bins_pos(a, num(r["p"]))
            out.append({"n": r["n"], "w": r["w"], "v": float(v)})
            continue
        a = axes[r["ax"] % len(axes)]
        w, b = r["w"], a["b"]
        lo, hi = num(a["lo"]), num(a["hi"])
        wd = (hi - lo) / b
        n = a["n"]
        if w == "low":
            k = min(b - 1, int(r["f"] * b))
        else:
            k = max(1, int(math.ceil(r["f"] * b)))
        if r["k"] == "edge":
            v = bins_pos(a, k)
        elif r["k"] == "hair":       # an edge up to rounding
            v = bins_pos(a, k) * (1 + 1e-15)
        elif r["k"] == "tol":        # equal to the present bound, nearly
            v = lo - (1e-9 * wd if r["f"] < 0.5 else 0) \
                if w == "low" else hi + 1e-9 * wd
        elif r["k"] == "in":
            v = lo + ((k if w == "low" else k - 1) + r["fr"]) * wd
        elif r["k"] == "beyond":
            v = lo - 1.7 * wd if w == "low" else hi + 1.3 * wd
        elif r["k"] == "slightly":
            v = lo - 1e-2 * wd if w == "low" else hi + 1e-2 * wd
        elif r["k"] == "reverse":
            v = hi - 0.2 * wd if w == "low" else lo + 0.2 * wd
            if r["fr"] > 0.6:
                v = hi + 2 * wd if w == "low" else lo - 2 * wd
        elif r["k"] == "unknown":
            n, v = "nothing_mc", lo
        elif r["k"] == "word":
            w, v = "middle", lo
        if (n, w) in seen:
            continue
        seen.add((n, w))
        out.append({"n": n, "w": w, "v": float(v)})
    return out


def divisors(b):
    return [k for k in range(1, b + 1) if b % k == 0] if b > 0 else [1]


def run(seq, rec):
    heap, cfgs = [], []

    def note(op, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, heap=[proj(s) for s in heap], **e)

    for op in seq:
        o = op["op"]
        if o == "new":
            s, c = make(op["axes"], op["dec"], raw=op.get("raw", 0))
            heap.append(s)
            cfgs.append(c)
            note("new", i=len(heap), dec=fl(num(op["dec"])),
                 raw=op.get("raw", 0),
                 axes=[{"n": a["n"], "lo": fl(num(a["lo"])),
                        "hi": fl(num(a["hi"])), "b": a["b"]}
                       for a in op["axes"]])
            continue
        if "pos" in op or "ax" in op or "axs" in op or "rq" in op \
                or "dv" in op or o in ("shared",):
            idx = op["i"] % len(heap)       # generator: 0-based, modulo
        else:
            idx = (op["i"] - 1) % len(heap) if o not in ("scale", "copy",
                                                         "add") \
                else op["i"] % len(heap)
        s = heap[idx]
        I = idx + 1
        axes = axes_of(s)
        if len(heap) > 4 and o in ("copy", "derive", "shared", "addnew"):
            continue
        if o == "fill":
            if "vals" in op:
                vals = [[v["n"], num(v["v"])] for v in op["vals"]]
            else:
                vals = []
                for a, p in zip(axes, op["pos"]):
                    if p == "last":
                        vals.append([a["n"], float(numpy.nextafter(
                            num(a["hi"]), num(a["lo"])))])
                        continue
                    p = p if p < a["b"] else p % a["b"]
                    vals.append([a["n"], bins_pos(a, p)])
                if "bad" in op:
                    k = op["bad"][1] % len(vals)
                    a = axes[k]
                    lo, hi = num(a["lo"]), num(a["hi"])
                    how = op["bad"][0]
                    if how == "high":
                        vals[k][1] = hi
                    elif how == "above":
                        vals[k][1] = hi + 0.3 * (hi - lo) / a["b"]
                    elif how == "below":
                        vals[k][1] = lo - 0.01 * (hi - lo) / a["b"]
                    elif how == "far":
                        vals[k][1] = lo - 3.5 * (hi - lo)
                    elif how in ("nan", "inf"):
                        vals[k][1] = float(how)
                    elif how == "missing":
                        vals.pop(k)
                    elif how == "extra":
                        vals.append(["other_mc", lo])
                    elif how == "extratype":
                        vals.append([a["n"].rsplit("_", 1)[0] + "_other",
                                     0.5 * (lo + hi)])
                    elif how == "retype":
                        vals[k][0] = a["n"].rsplit("_", 1)[0] + "_other"
                    elif how == "rename":
                        vals[k][0] = "zenergy_mc"
                elif len(op["pos"]) < len(axes):
                    continue
            kw = {n: v for n, v in vals}
            w = op["w"]
            if w == "default":
                ok, _, err = attempt(s.fill, **kw)
                w = "1"
            else:
                ok, _, err = attempt(s.fill, weight=num(w), **kw)
            note("fill", i=I, w=fl(num(w)), ok=ok, err=err,
                 vals=[{"n": n, "v": fl(v)} for n, v in vals])
        elif o in ("shrink", "cut", "roi"):
            req = resolve_req(op.get("rq", op.get("req")), axes)
            if o == "roi":
                if len(req) != 2 or req[0]["n"] != req[1]["n"]:
                    req = [dict(r, n=req[0]["n"]) for r in req[:2]]
                if len(req) != 2:
                    continue
                req[0]["w"], req[1]["w"] = "low", "high"
                ok, _, err = attempt(s.shrink_to_roi, req[0]["v"],
                                     req[1]["v"], req[0]["n"])
            else:
                kw = {"%s_%s" % (r["n"], r["w"]): r["v"] for r in req}
                ok, _, err = attempt(getattr(s, o), **kw)
            note(o, i=I, ok=ok, err=err,
                 req=[dict(r, v=fl(r["v"])) for r in req])
        elif o == "rebin":
            if "bins" in op:
                bins = list(op["bins"])
            else:
                bins = [divisors(a["b"])[d % len(divisors(a["b"]))]
                        for a, d in zip(axes, op["dv"])]
                if "bad" in op:
                    how, k, v = op["bad"]
                    k = k % len(bins)
                    if how == "value":
                        bins[k] = v
                    elif how == "larger":
                        bins[k] = axes[k]["b"] * v
                    elif how == "zero":
                        bins[k] = 0
                    elif how == "minus":
                        bins[k] = -bins[k]
                    elif how == "short":
                        bins = bins[:-1]
                    elif how == "long":
                        bins.append(1)
            ok, _, err = attempt(s.rebin, list(bins))
            note("rebin", i=I, ok=ok, err=err, bins=bins)
        elif o == "scale":
            v = num(op["to"])
            ok, _, err = attempt(s.scale, v)
            note("scale", i=I, ok=ok, err=err, to=fl(v))
        elif o == "copy":
            ok, c, err = attempt(copy.copy, s)
            if ok:
                heap.append(c)
            note("copy", i=I, ok=ok, err=err)
        elif o == "shared":          # two spectra built from one config
            ax2 = axes_of(s)
            c = spectra.Spectra("shared_mc", 5.0, s.get_config())
            heap.append(c)
            note("new", i=len(heap), dec="5", raw=0, axes=ax2)
        elif o == "add":
            j = op["j"] % len(heap)
            if j == idx:
                continue
            ok, _, err = attempt(s.add, heap[j])
            note("add", i=I, j=j + 1, ok=ok, err=err)
        elif o == "addnew":
            ax = [dict(a) for a in axes]
            k = op["ax"] % len(ax)
            a = ax[k]
            lo, hi = num(a["lo"]), num(a["hi"])
            how = op["change"]
            if how == "low":
                a["lo"] = repr(lo - (hi - lo) / 2)
            elif how == "high":
                a["hi"] = repr(hi + (hi - lo) / 2)
            elif how == "bins":
                a["b"] = a["b"] + 1
            elif how == "shift":
                a["lo"] = repr(lo + (hi - lo) / 4)
                a["hi"] = repr(hi + (hi - lo) / 4)
            elif how == "both":
                a["hi"] = repr(lo + 2 * (hi - lo))
                a["b"] = 2 * a["b"]
            elif how == "name":
                a["n"] = "other_mc"
            elif how == "drop" and len(ax) > 1:
                ax.pop(k)
            elif how == "extra":
                ax.append({"n": "w_mc", "lo": "0", "hi": "1", "b": 1})
            elif how == "swap" and len(ax) > 1:
                ax = [ax[k]] + ax[:k] + ax[k + 1:]
                if k == 0:
                    ax = ax[1:] + ax[:1]
            elif how == "type":
                a["n"] = a["n"].rsplit("_", 1)[0] + "_other"
            t, c = make(ax, "3", raw=4)
            heap.append(t)
            cfgs.append(c)
            note("new", i=len(heap), dec="3", raw=4, axes=axes_of(t))
            pos = [0.5] * len(ax)
            kw = {x["n"]: bins_pos(x, 0.5) for x in ax}
            attempt(t.fill, weight=2.0, **kw)
            note("fill", i=len(heap), w="2", vals=[{"n": n, "v": fl(v)}
                                                   for n, v in kw.items()])
            ok, _, err = attempt(s.add, t)
            note("add", i=I, j=len(heap), ok=ok, err=err)
        elif o == "derive":
            n = axes[op["ax"] % len(axes)]["n"]
            by, v = op["by"], op["v"]
            p = s.get_config().get_par(n)
            ok = True

            def derived():
                numpy.random.seed(7)
                if by == "scale":
                    sc = Scale()
                    sc.set_scale_factor(v)
                    return sc.scale(s, n, k=1)
                if by in ("shift", "shiftbin"):
                    sh = Shift()
                    sh.set_shift(p.get_width() * (1 if by == "shiftbin"
                                                  else v / 2))
                    return sh.shift(s, n, k=1)
                if by == "smearR":
                    sm = smear.RadialSmear()
                    sm.set_resolution(p.get_width() * v)
                    return sm.weighted_smear(s, par=n)
                if by in ("smearE", "randE"):
                    sm = smear.EnergySmearRes(poisson=False)
                    sm.set_resolution(min(0.9, max(0.05, v - 0.7)))
                else:
                    sm = smear.EnergySmearLY(poisson=False)
                    sm.set_resolution(100 * v)
                if by[:4] == "rand":
                    return sm.random_smear(s, par=n)
                return sm.weighted_smear(s, par=n)
            ok, c, err = attempt(derived)
            if ok:
                heap.append(c)
            note("derive", i=I, ok=ok, err=err, what=by)
        elif o == "interpolate":    # the projection as a smooth function
            p = axes[op["axs"][0] % len(axes)]
            k = min(op["k"], int(p["b"]) - 1)
            if k < 1:
                continue

            def smooth():
                f = s.interpolate1d(p["n"], k=k) if op["named"] or k != 3 \
                    else s.interpolate1d(p["n"])
                return numpy.array([float(f(x)) for x in s.get_config()
                                    .get_par(p["n"]).get_bin_centres()])
            ok, r, err = attempt(smooth)
            note("project", i=I, ok=ok, err=err, names=[p["n"]], what=o,
                 ret=flat(r) if ok else [], rshape=shape(r) if ok else [])
        elif o in ("project", "surface", "ndproject"):
            names = []
            for k in op["axs"]:
                n = axes[k % len(axes)]["n"]
                if n not in names:
                    names.append(n)
            if o == "project":
                names = names[:1]
            elif o == "surface":
                names = names[:2]
                if len(names) < 2:
                    continue
            if op.get("bad"):
                names[-1] = "nothing_mc"
            f = {"project": lambda: s.project(*names),
                 "surface": lambda: s.surface(*names),
                 "ndproject": lambda: s.nd_project(list(names))}[o]
            ok, r, err = attempt(f)
            note("project", i=I, ok=ok, err=err, names=names, what=o,
                 ret=flat(r) if ok else [], rshape=shape(r) if ok else [])
            if ok:
                attempt(r.fill, -77.0)
                note("scribble", i=I)
