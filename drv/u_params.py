"""Driver: fit parameter grids (C07) and axis geometry (C08)."""
import numpy
import warnings
from common import fl, it, flat, attempt
from echidna.core import parameter
from collections import OrderedDict

CLS = {"rate": parameter.RateParameter, "res": parameter.ResolutionParameter,
       "scale": parameter.ScaleParameter, "shift": parameter.ShiftParameter}


def num(t):
    if not isinstance(t, str):
        return t
    if t in ("nan", "inf", "-inf"):
        return float(t)
    if "/" in t:
        a, b = t.split("/")
        return float(a) / float(b)
    try:
        return int(t)
    except ValueError:
        return float(t)


# ------------------------------------------------------------- generation
def gen_bounds(rng, mode):
    r = rng.random()
    if mode == "log":
        lo = rng.choice([1., 0.5, 10., 1e-3, round(rng.uniform(0.01, 50), 3)])
        hi = lo * rng.choice([10., 2., 1.5, 1e4, round(rng.uniform(1.1, 90),
                                                       3)])
        return lo, hi
    if r < 0.3:
        lo = float(rng.randint(-5, 20))
        return lo, lo + rng.randint(1, 12)
    lo = round(rng.uniform(-10, 500), rng.randint(0, 3))
    if r > 0.85:        # around zero
        return -abs(lo) - 0.1, (abs(lo) + 0.1) * rng.choice([1, 1, 0.5, 2])
    if r < 0.38:        # neighbouring values are nearly equal
        lo = abs(lo) + 1.
        return lo, lo * (1. + rng.choice([1e-7, 1e-6, 1e-5, 1e-4]))
    return lo, lo + round(rng.uniform(0.01, 400), 3)


def gen_prior(rng, lo, hi):
    r = rng.random()
    if lo < 0 < hi and r < 0.4:
        return 0.
    if r < 0.4:
        return (lo + hi) / 2
    if r < 0.5:
        return lo
    if r < 0.6:
        return hi
    return lo + round(rng.random(), 4) * (hi - lo)


def gen_fit(rng):
    mode = rng.choice(["linear", "linear", "log", "dev", "dev"])
    lo, hi = gen_bounds(rng, mode)
    s = [{"op": "fit", "cls": rng.choice(sorted(CLS)), "low": repr(lo),
          "high": repr(hi), "bins": rng.choice([2, 3, 4, 5, 6, 7, 8, 11, 20]),
          "prior": repr(gen_prior(rng, lo, hi)),
          "sigma": rng.choice(["none", "0.5", "2"]),
          "log": mode == "log", "dev": mode == "dev"}]
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.3:
            s.append({"op": "grid"})
        elif r < 0.4:
            s.append({"op": "check"})
        elif r < 0.55:
            s.append({"op": "lookup", "i": rng.randint(0, 30),
                      "how": rng.choice(["between", "above", "below", "near",
                                         "nan"])})
        else:
            kw = []
            for k in rng.sample(["low", "high", "bins", "prior", "sigma",
                                 "bad", "mode", "own"],
                                rng.choice([1, 1, 2])):
                if k == "low":
                    lo = lo - round(rng.uniform(0, 3), 2) if mode != "log" \
                        else lo * 0.5
                    kw.append({"k": k, "v": repr(lo)})
                elif k == "high":
                    hi = hi + round(rng.uniform(0, 3), 2)
                    kw.append({"k": k, "v": repr(hi)})
                elif k == "bins":
                    kw.append({"k": k, "v": str(rng.randint(2, 12))})
                elif k == "prior":
                    kw.append({"k": k, "v": repr(gen_prior(rng, lo, hi))})
                elif k == "sigma":
                    kw.append({"k": k, "v": rng.choice(["none", "3"])})
                elif k == "mode":
                    kw.append({"k": rng.choice(["logscale",
                                                "logscale_deviation"]),
                               "v": rng.choice(["0", "1"])})
                elif k == "own":
                    kw.append(rng.choice([
                        {"k": "base", "v": rng.choice(["2", "10"])},
                        {"k": "dimension", "v": rng.choice(
                            ["radial", "energy_mc", "energy_reco"])}]))
                elif rng.random() < 0.3:
                    kw.append({"k": "sideways", "v": "1"})
            if kw:
                if rng.random() < 0.6:      # may hold values by now
                    s.append({"op": "grid"})
                s.append({"op": "set", "kw": kw})
                if rng.random() < 0.6:
                    s.append({"op": "grid"})
    s.append({"op": rng.choice(["grid", "check"])})
    return s


def gen_axis(rng):
    def bounds():
        r = rng.random()
        if r < 0.4:
            w = 2.0 ** rng.randint(-5, 4)
            b = rng.choice([1, 2, 4, 8, 16, 32])
            lo = rng.randint(-20, 60) * w * rng.choice([1, 0.5, 0.25])
            return lo, lo + b * w, b
        lo = round(rng.uniform(-20, 900), rng.randint(0, 3))
        if r < 0.7:
            lo = round(rng.uniform(-3, 3), 1)
        return lo, lo + round(rng.uniform(0.05, 800), 2), rng.randint(1, 40)
    lo, hi, b = bounds()
    s = [{"op": "axis", "low": repr(lo), "high": repr(hi), "bins": b}]
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.3:
            s.append({"op": "geometry"})
        elif r < 0.45:
            lo, hi, b = bounds()
            kw = [{"k": "low", "v": repr(lo)}, {"k": "high", "v": repr(hi)},
                  {"k": "bins", "v": str(b)}]
            rng.shuffle(kw)
            if rng.random() < 0.3:
                kw = [k for k in kw if k["k"] == "bins"]
            if rng.random() < 0.1:
                kw.append({"k": "width", "v": "1"})
            s.append({"op": "aset", "kw": kw})
        for _ in range(rng.randint(2, 6)):
            s.append({"op": "abin", "how": rng.choice(
                ["in", "in", "in", "edge", "low", "high", "near", "above",
                 "below", "nan", "hair"]), "k": rng.randint(0, 60),
                "f": round(rng.uniform(0.02, 0.98), 4)})
        for _ in range(rng.randint(1, 3)):
            s.append({"op": "around", "k": rng.randint(0, 60),
                      "f": rng.choice([0.0, 0.5, 0.49, 0.51, 0.25, 0.9,
                                       round(rng.random(), 4)])})
        s.append({"op": "acentre", "k": rng.choice(
            [-1, -5, "b", "b+", rng.randint(0, 60), rng.randint(0, 60)]),
            "np": rng.random() < 0.3})
    s.append({"op": "geometry"})
    return s


def gen(profile, rng, n):
    return [gen_fit(rng) if profile == "grid" else gen_axis(rng)
            for _ in range(n)]


# -------------------------------------------------------------- execution
BLANK = dict(lo="0", hi="0", b=0, prior="0", log=False, dev=False, kw=[],
             vals=[], idx=[], at=[], x="0", out="0", i=0, ok=True, err="",
             cls="", told=0, exact=False, edges=[], centres=[], width="0",
             centre_of=[], sigma="none", dim="none")


def setkw(kw):
    d = OrderedDict()
    for x in kw:
        k, v = x["k"], x["v"]
        if k in ("logscale", "logscale_deviation"):
            d[k] = v == "1"
        elif v == "none":
            d[k] = None
        elif k == "dimension":
            d[k] = v
        else:
            d[k] = num(v)
    return d


def run(seq, rec):
    p = None

    def note(op, **k):
        e = dict(BLANK)
        if p is not None:
            e.update(lo=fl(p.get_low()), hi=fl(p.get_high()),
                     b=it(p.get_bins()))
            if hasattr(p, "get_prior"):
                e["prior"] = fl(p.get_prior())
                v = p.get_sigma()
                e["sigma"] = "none" if v is None else fl(v)
                e["dim"] = str(p.get_dimension())
        e.update(k)
        rec.event(op=op, **e)

    for op in seq:
        o = op["op"]
        if o == "fit":
            kw = dict(prior=num(op["prior"]),
                      sigma=None if op["sigma"] == "none"
                      else num(op["sigma"]), low=num(op["low"]),
                      high=num(op["high"]), bins=op["bins"])
            if op["log"]:
                kw["logscale"] = True
            if op["dev"]:
                kw["logscale_deviation"] = True
            if op["cls"] != "rate":
                kw["dimension"] = "energy"
            ok, p, err = attempt(CLS[op["cls"]], "p", **kw)
            note("fit", ok=ok, err=err, lo=fl(num(op["low"])),
                 hi=fl(num(op["high"])), b=op["bins"],
                 prior=fl(num(op["prior"])), log=op["log"], dev=op["dev"],
                 cls=op["cls"], sigma=op["sigma"] if op["sigma"] == "none"
                 else fl(num(op["sigma"])),
                 dim="energy" if op["cls"] != "rate" else "None")
        elif o == "axis":
            ok, p, err = attempt(parameter.SpectraParameter, "energy_mc",
                                 num(op["low"]), num(op["high"]), op["bins"])
            note("axis", ok=ok, err=err, lo=fl(num(op["low"])),
                 hi=fl(num(op["high"])), b=op["bins"])
        elif p is None:
            return
        elif o == "set":
            ok, _, err = attempt(p.set_par, **setkw(op["kw"]))
            note("set", kw=[{"k": x["k"], "v": x["v"] if x["v"] == "none"
                             or x["k"] == "dimension" else fl(num(x["v"]))} for x in op["kw"]],
                 ok=ok, err=err)
        elif o == "aset":
            ok, _, err = attempt(p.set_par, **setkw(op["kw"]))
            note("aset", kw=[{"k": x["k"], "v": fl(num(x["v"]))}
                             for x in op["kw"]], ok=ok, err=err)
        elif o == "grid":
            ok, v, err = attempt(p.get_values)
            vals = flat(v) if ok else []
            idx, at = [], []
            for i in range(len(vals)):
                ok1, r, _ = attempt(p.get_value_index, v[i])
                idx.append(it(r) if ok1 else -2)
                ok1, r, _ = attempt(p.get_value_at, i)
                at.append(fl(r) if ok1 else "bad")
            ok2, r, _ = attempt(p.get_value_at, len(vals))
            note("grid", ok=ok, err=err, vals=vals, idx=idx, at=at,
                 i=1 if ok2 else 0)
        elif o == "check":
            ok, v, err = attempt(p.get_values)
            if not ok:
                continue
            with warnings.catch_warnings(record=True) as said:
                warnings.simplefilter("always")
                ok, _, err = attempt(p.check_values)
            note("check", ok=ok, err=err, vals=flat(v), told=len(
                [w for w in said if w.category is UserWarning]),
                cls=[c for c in sorted(CLS) if isinstance(p, CLS[c])][0])
        elif o == "lookup":
            ok, v, err = attempt(p.get_values)
            if not ok or len(v) < 2:
                continue
            i = op["i"] % (len(v) - 1)
            x = {"between": (v[i] + v[i + 1]) / 2, "above": v[-1] + 1.,
                 "below": v[0] - 1., "near": v[i] * (1 + 1e-7) + 1e-9,
                 "nan": float("nan")}[op["how"]]
            ok, r, err = attempt(p.get_value_index, x)
            note("lookup", ok=ok, err=err, x=fl(x), vals=flat(v),
                 i=it(r) if ok else -1)
        elif o == "geometry":
            ok, e, err = attempt(p.get_bin_boundaries)
            ok2, c, err2 = attempt(p.get_bin_centres)
            ok3, w, _ = attempt(p.get_width)
            b = it(p.get_bins())
            co = []
            for i in range(max(0, b)):
                ok4, r, _ = attempt(p.get_bin_centre, i)
                co.append(fl(r) if ok4 else "bad")
            note("geometry", ok=ok and ok2 and ok3, err=err or err2,
                 edges=flat(e) if ok else [], centres=flat(c) if ok2 else [],
                 width=fl(w) if ok3 else "bad", centre_of=co)
        elif o == "abin":
            lo, hi, b = p.get_low(), p.get_high(), int(p.get_bins())
            if b < 1 or not hi > lo:
                continue
            w = (hi - lo) / b
            k = op["k"] % b
            exact = False
            how = op["how"]
            if how == "in":
                x = lo + (k + op["f"]) * w
            elif how == "edge":
                if b & (b - 1) or lo + k * w != float(lo) + k * w or \
                        w != 2.0 ** round(numpy.log2(w)) or lo % w and \
                        (lo / w * 4) % 1:
                    x = lo + (k + 0.5) * w
                else:
                    x, exact = lo + k * w, True
            elif how == "low":
                x, exact = lo, True
            elif how == "high":
                x = hi
            elif how == "near":
                x = lo + (k + op["f"] * 1e-3) * w
            elif how == "above":
                x = hi + (1e-6 + op["f"]) * w
            elif how == "below":
                x = lo - (1e-6 + op["f"]) * w
            elif how == "hair":
                x = lo - abs(lo) * 1e-14 - 1e-14 * w
            else:
                x = float("nan")
            ok, r, err = attempt(p.get_bin, x)
            note("abin", ok=ok, err=err, x=fl(x), exact=exact,
                 i=it(r) if ok else -1)
        elif o == "around":
            lo, hi, b = p.get_low(), p.get_high(), int(p.get_bins())
            if b < 1 or not hi > lo:
                continue
            x = lo + (op["k"] % b + op["f"]) * (hi - lo) / b
            ok, r, err = attempt(p.round, x)
            note("around", ok=ok, err=err, x=fl(x),
                 out=fl(r) if ok else "bad")
        elif o == "acentre":
            b = int(p.get_bins())
            k = op["k"]
            if k == "b":
                k = b
            elif k == "b+":
                k = b + 3
            elif k >= 0:
                k = k % max(b, 1)
            ok, r, err = attempt(p.get_bin_centre,
                                 numpy.int64(k) if op["np"] else k)
            note("acentre", ok=ok, err=err, i=k, out=fl(r) if ok else "bad")
