"""Driver: scaling, shifting and smearing of spectra (C18, C19, C20)."""
import math
import numpy
from common import fl, it, attempt
from u_spectrum import num, make, proj, axes_of
from echidna.core.scale import Scale
from echidna.core.shift import Shift
from echidna.core import smear

OTHERS = ["x_mc", "alpha_beta_truth", "y_reco"]


# ------------------------------------------------------------- generation
def gen_conv_axis(rng, name):
    b = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    if rng.random() < 0.4:
        w = 2.0 ** rng.randint(-3, 3)
        lo = rng.choice([0, 0, 1, 2, 4, 0.5]) * w
    else:
        w = round(rng.uniform(0.07, 1.5), 2)
        lo = round(rng.choice([0, rng.uniform(0, 3)]), 2)
    if name.startswith("radial"):
        w *= 50
        lo *= 50
    return {"n": name, "lo": repr(lo), "hi": repr(lo + b * w), "b": b}


def gen_new(rng, ints=False):
    name = rng.choice(["energy_mc", "energy_mc", "energy_reco", "radial_mc",
                       "energy_truth"])
    axes = [gen_conv_axis(rng, name)]
    for n in rng.sample(OTHERS, rng.choice([0, 0, 1, 1, 2])):
        lo = rng.choice([-1, 0, 0.25, 3])
        axes.append({"n": n, "lo": repr(lo), "hi": repr(lo + 2.5),
                     "b": rng.choice([1, 2, 2, 3])})
    rng.shuffle(axes)
    shape = [a["b"] for a in axes]
    k = [a["n"] for a in axes].index(name)
    n = 1
    for b in shape:
        n *= b
    style = rng.choice(["delta", "bump", "bump", "rand", "sparse", "edges",
                        "separable", "empty"] if rng.random() < 0.9 else
                       ["rand"])
    mid = rng.randrange(shape[k])
    wd = rng.choice([0.5, 1., 2.])
    other = [rng.uniform(0, 3) for _ in range(n)]
    cells = []
    for c in range(n):
        u, r = [], c
        for b in reversed(shape):
            u.insert(0, r % b)
            r //= b
        j = u[k]
        o = c if style != "separable" else sum(
            x * (i + 3) for i, x in enumerate(u) if i != k)
        v = {"delta": 40. if j == mid and sum(u) % 2 == j % 2 else 0.,
             "bump": 50 * math.exp(-(j - mid) ** 2 / (2 * wd * wd)) *
             (0.2 + other[c]),
             "rand": rng.uniform(0, 20), "sparse": rng.choice(
                 [0, 0, 0, rng.uniform(1, 9)]),
             "edges": 12. if j in (0, shape[k] - 1) else 0.,
             "separable": (3 + (j - mid) ** 2) * (1 + other[o % n]),
             "empty": 0.}[style]
        if ints:
            v = float(round(v / 4)) + rng.choice([0, 0, 0.75])
        cells.append(repr(round(v, 4)))
    return {"op": "new", "axes": axes, "cells": cells, "k": k,
            "dec": repr(round(rng.uniform(1, 100), 2)),
            "raw": rng.randint(0, 99)}


def gen_smear(rng, kind, ax):
    """Resolution such that the spread is a fraction of the range."""
    lo, hi, b = num(ax["lo"]), num(ax["hi"]), ax["b"]
    w = (hi - lo) / b
    sd = w * rng.choice([0.05, 0.3, 0.7, 1.0, 1.3, 2.1, 4.0])
    x = max(lo + 0.5 * w, 0.5 * (lo + hi))
    if kind == "ly":
        res = min(x / sd ** 2, 3000. / hi)
    elif kind == "res":
        res = min(0.97, max(sd / math.sqrt(x), 0.02))
        if rng.random() < 0.3:
            res = rng.choice([0.05, 0.1, 0.2])
    else:
        res = sd
    if kind == "ly" and rng.random() < 0.3:
        res = rng.choice([200., 50., 120.])
    res = float("%.4g" % res)
    return {"kind": kind, "res": repr(res), "poisson": rng.random() < 0.5,
            "ns": repr(rng.choice([5., 5., 3., 1., 0.5, 2.37, 10.]))}


def gen_conv(rng, profile, new):
    ax = new["axes"][new["k"]]
    w = (num(ax["hi"]) - num(ax["lo"])) / ax["b"]
    o = {"op": "conv", "axis": ax["n"], "k": 3, "v": "1",
         "take": rng.random() < 0.3}
    if rng.random() < 0.06:
        o["axis"] = rng.choice(["nothing_mc", "energy", "radial3_mc", ""])
    elif profile != "smear" and rng.random() < 0.15:
        a2 = rng.choice(new["axes"])
        if a2["b"] > 1:
            o["axis"], ax = a2["n"], a2
            w = (num(ax["hi"]) - num(ax["lo"])) / ax["b"]
    o["k"] = min(rng.choice([3, 3, 3, 1, 1, 2, 5]), max(1, ax["b"] - 1))
    if profile == "scale":
        o["how"] = "scale"
        o["v"] = repr(rng.choice([1.0, 1.0, 1.1, 0.9, 2.0, 0.5, 1.01, 5.0, 25.,
                                  0.04, round(rng.uniform(0.6, 1.6), 3),
                                  round(rng.uniform(0.6, 1.6), 3)]))
    elif profile == "shift":
        o["how"] = "shift"
        r = rng.random()
        if r < 0.5:
            q = rng.randint(-ax["b"] - 1, ax["b"] + 1)
            o["v"] = repr(q * w if rng.random() < 0.5 else
                          float("%.12g" % (q * w)))
        elif r < 0.6:
            o["v"] = repr(rng.choice([-1, 1]) * (rng.randint(0, 3) + .5) * w)
        elif r < 0.7:
            o["v"] = repr(rng.choice([-1, 1]) * (ax["b"] + 2.3) * w)
        else:
            o["v"] = repr(round(rng.uniform(-1, 1) * ax["b"] * w * 0.6, 3))
        o["binned"] = rng.random() < 0.12
    else:
        kind = "rad" if ax["n"].startswith("radial") or \
            rng.random() < 0.2 else rng.choice(["ly", "res"])
        o["how"] = "random" if profile == "random" else "smear"
        o["sm"] = gen_smear(rng, kind, ax)
    return o


def gen_misc(rng, profile):
    r = rng.random()
    if r < 0.5 or profile in ("scale", "shift"):
        own = {"scale": ["factor"], "shift": ["shift"]}.get(
            profile, ["num_sigma", "ly", "res", "rad"])
        return {"op": "set", "how": rng.choice(
            own * 2 + ["factor", "num_sigma", "ly", "res", "rad", "shift"]),
            "v": rng.choice(["-1", "0", "0.5", "1", "0.999", "200", "-0.001",
                             "1e-9", "3", "1.5", "nan"])}
    if r < 0.75:
        h = rng.choice(["ly", "res", "rad"])
        v = [rng.uniform(50, 900) for _ in range(2)]
        if h == "res":
            v = [x / 1000. for x in v]
        return {"op": "combine", "how": h, "v": repr(round(v[0], 4)),
                "cur": repr(round(v[1], 4)), "own": rng.random() < 0.5}
    return {"op": "formula", "how": rng.choice(["sigma", "bounds", "gauss"]),
            "v": repr(round(rng.uniform(0.1, 5), 3)),
            "was": repr(round(rng.uniform(0.1, 5), 3)),
            "cur": repr(round(rng.uniform(0.1, 2), 3)),
            "sm": {"kind": rng.choice(["ly", "res", "rad"]), "poisson": True,
                   "res": repr(round(rng.uniform(0.05, 0.95), 3)),
                   "ns": repr(rng.choice([5., 3., 0.5]))}}


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        new = gen_new(rng, profile == "random")
        if profile == "smear" and rng.random() < 0.12:
            new["cells"] = ["-" + c if rng.random() < 0.4 and num(c) > 0. else
                            c for c in new["cells"]]
        s = [new]
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.15:
                s.append(gen_misc(rng, profile))
            else:
                s.append(gen_conv(rng, profile, new))
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
class Dice(object):
    """Records (and seeds) the random numbers the smearing draws."""

    def __init__(self):
        self.draws = []
        self.normal, self.poisson = numpy.random.normal, numpy.random.poisson

    def note(self, d, m, s, v):
        vs = numpy.asarray(v).ravel().tolist()
        ms = (numpy.zeros(numpy.asarray(v).shape) + m).ravel().tolist()
        ss = (numpy.zeros(numpy.asarray(v).shape) + s).ravel().tolist()
        for a, b, c in zip(ms, ss, vs):
            self.draws.append({"d": d, "m": fl(a), "s": fl(b), "v": fl(c)})
        return v

    def __enter__(self):
        numpy.random.seed(12345)

        def normal(loc=0.0, scale=1.0, size=None):
            return self.note("normal", loc, scale,
                             self.normal(loc, scale, size))

        def poisson(lam=1.0, size=None):
            return self.note("poisson", lam, 0., self.poisson(lam, size))
        numpy.random.normal, numpy.random.poisson = normal, poisson
        return self

    def __exit__(self, *a):
        numpy.random.normal, numpy.random.poisson = self.normal, self.poisson


def smearer(sm):
    k = sm["kind"]
    if k == "ly":
        s = smear.EnergySmearLY(poisson=sm["poisson"])
    elif k == "res":
        s = smear.EnergySmearRes(poisson=sm["poisson"])
    else:
        s = smear.RadialSmear()
    s.set_resolution(num(sm["res"]))
    s.set_num_sigma(num(sm["ns"]))
    return s


NOSM = {"kind": "none", "res": "1", "poisson": False, "ns": "1"}
BLANK = dict(axis="", how="", v="0", k=0, sm=NOSM, take=False, ok=True,
             err="", draws=[], got="0", binned=False, was="0", cur="0", ret=[])


def sm_proj(sm):
    return {"kind": sm["kind"], "res": fl(num(sm["res"])),
            "poisson": bool(sm["poisson"]), "ns": fl(num(sm["ns"]))}


def simple(s):
    p = proj(s)
    p.pop("sum")
    return p


def run(seq, rec):
    s = None
    none = {"axes": [], "data": [], "shape": [], "dec": "0", "raw": 0,
            "rois": []}

    def note(op, sp, res, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, sp=sp, res=res, **e)

    for op in seq:
        o = op["op"]
        if o == "new":
            s, _ = make(op["axes"], op["dec"], raw=op.get("raw", 0))
            shape = [a["b"] for a in op["axes"]]
            for c, v in enumerate(op["cells"]):
                if num(v) == 0:
                    continue
                kw, r = {}, c
                for a in reversed(op["axes"]):
                    j = r % a["b"]
                    r //= a["b"]
                    lo, hi = num(a["lo"]), num(a["hi"])
                    kw[a["n"]] = lo + (j + 0.5) * (hi - lo) / a["b"]
                s.fill(weight=num(v), **kw)
            note("new", simple(s), none)
        elif o == "conv":
            how = op["how"]
            sm = op.get("sm", NOSM)
            v, k = num(op["v"]), op.get("k", 3)
            draws = []
            if how == "scale":
                c = Scale()
                c.set_scale_factor(v)
                kw = {} if k == 3 else {"k": k}
                ok, r, err = attempt(c.scale, s, op["axis"], **kw)
            elif how == "shift":
                if "bins" in op:        # from the specification
                    v = op["bins"] * s.get_config().get_par(
                        op["axis"]).get_width()
                c = Shift()
                c.set_shift(v)
                kw = {} if k == 3 else {"k": k}
                if op.get("binned"):
                    ok, r, err = attempt(c.shift_by_bin, s, op["axis"])
                else:
                    ok, r, err = attempt(c.shift, s, op["axis"], **kw)
            else:
                c = smearer(sm)
                if how == "smear":
                    ok, r, err = attempt(c.weighted_smear, s,
                                         par=op["axis"])
                else:
                    with Dice() as dice:
                        ok, r, err = attempt(c.random_smear, s,
                                             par=op["axis"])
                    draws = dice.draws
            if ok:
                ok, p, err = attempt(simple, r)
            note("conv", simple(s), p if ok else none, axis=op["axis"],
                 how=how, v=fl(v), k=k, sm=sm_proj(sm), draws=draws, ok=ok,
                 err=err, take=bool(op.get("take", True)),
                 binned=bool(op.get("binned")))
            if ok and op.get("take", True):
                s = r
        elif o == "set":
            h, v = op["how"], num(op["v"])
            c, get, put = {
                "factor": (Scale, "get_scale_factor", "set_scale_factor"),
                "shift": (Shift, "get_shift", "set_shift"),
                "num_sigma": (smear.RadialSmear, "get_num_sigma",
                              "set_num_sigma"),
                "ly": (smear.EnergySmearLY, "get_resolution",
                       "set_resolution"),
                "res": (smear.EnergySmearRes, "get_resolution",
                        "set_resolution"),
                "rad": (smear.RadialSmear, "get_resolution",
                        "set_resolution")}[h]
            if h in ("shift", "factor") and op["v"] == "nan":
                continue
            c = c()
            getattr(c, put)(0.5)
            ok, _, err = attempt(getattr(c, put), v)
            note("set", none, none, how=h, v=fl(v), ok=ok, err=err,
                 was="0.5", got=fl(getattr(c, get)()))
        elif o == "combine":
            h, v, cur = op["how"], num(op["v"]), num(op["cur"])
            c = {"ly": smear.EnergySmearLY, "res": smear.EnergySmearRes,
                 "rad": smear.RadialSmear}[h]()
            f = c.calc_smear_ly if h == "ly" else c.calc_smear_resoluton
            if op["own"]:
                c.set_resolution(cur)
                ok, r, err = attempt(f, v)
            else:
                if h == "res":
                    c.set_resolution(0.01)
                ok, r, err = attempt(f, v, cur)
            note("combine", none, none, how=h, v=fl(v), cur=fl(cur), ok=ok,
                 err=err, got=fl(r) if ok else "0")
        elif o == "formula":
            h, v, was, cur = (op["how"], num(op["v"]), num(op["was"]),
                              num(op["cur"]))
            c = smearer(op["sm"])
            if h == "sigma":
                a = () if op["sm"]["kind"] == "rad" else (v,)
                ok, r, err = attempt(c.get_sigma, *a)
                ret = [fl(r)]
            elif h == "bounds":
                ok, r, err = attempt(c.get_bounds, v, cur)
                ret = [fl(x) for x in r] if ok else []
            else:
                ok, r, err = attempt(c.calc_gaussian, v, was, cur)
                ret = [fl(r)]
            note("formula", none, none, how=h, v=fl(v), was=fl(was),
                 cur=fl(cur), sm=sm_proj(op["sm"]), ok=ok, err=err,
                 ret=ret if ok else [])
