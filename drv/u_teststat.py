"""Driver: test statistics (C10)."""
import numpy
from common import fl, flat, attempt
from echidna.fit import test_statistic as ts

CLASSES = {"baker_cousins": ts.BakerCousinsChi,
           "baker_cousins_up": ts.BakerCousinsChiUp,
           "baker_cousins_ll": ts.BakerCousinsLL,
           "neyman": ts.Neyman, "pearson": ts.Pearson,
           "extended_ll": ts.ExtendedLL}


def num(t):
    if "/" in t:
        a, b = t.split("/")
        return float(a) / float(b)
    return float(t)


def gen(profile, rng, n):
    seqs = []

    def count(kind):
        r = rng.random()
        if r < 0.15:
            return "0"
        if kind == "int":
            return str(rng.randint(0, 50))
        if r < 0.3:
            return str(rng.randint(1, 30))
        if r < 0.35:
            return repr(10.0 ** rng.randint(-12, 6))
        if r < 0.40:
            return repr(rng.choice([1e-40, 1e-35, 1e-33, 5e-34, 1e-30]))
        return repr(round(rng.uniform(0, 40), rng.randint(0, 6)))
    for i in range(n):
        s = []
        for j in range(3):
            dtype = rng.choice(["float", "float", "float", "int"])
            nb = rng.choice([1, 1, 2, 3, 5, 8, 13, 30])
            o = [count(dtype) for _ in range(nb)]
            e = list(o) if rng.random() < 0.15 else \
                [count(dtype) for _ in range(nb)]
            op = {"op": "stat", "obs": o, "exp": e, "dtype": dtype}
            r = rng.random()
            if r < 0.08 and nb > 1:
                op["exp"] = e[:-1]
            elif r < 0.11:
                op["exp"] = e + ["1"]
            elif r < 0.15:
                op["reshape"] = rng.choice(["obs", "exp", "both"])
            s.append(op)
        if rng.random() < 0.9:
            s.append({"op": "penalty",
                      "value": repr(round(rng.uniform(-50, 50), 4)),
                      "prior": repr(round(rng.uniform(-50, 50), 4)),
                      "sigma": repr(round(rng.uniform(0.01, 20), 4))})
            v = repr(round(rng.uniform(0, 50), 3))
            s.append({"op": "penalty", "value": v, "prior": v,
                      "sigma": str(rng.randint(1, 9))})
            s.append({"op": "penalty", "value": str(rng.randint(-9, 9)) + ".",
                      "prior": str(rng.randint(-9, 9)) + ".",
                      "sigma": str(rng.randint(1, 9)) + "."})
        seqs.append(s)
    return seqs


def tag(kind, perbin, dt, o, e, ok, out):
    """Names the situations of the known findings (inputs only, plus whether
    the result is a number at all)."""
    if o.shape != e.shape or o.ndim != 1:
        return ""
    if kind == "baker_cousins_up" and perbin and numpy.any(o > e):
        return "baker_cousins_up per bin, a bin with observed > expected"
    floored = o if kind == "neyman" else e
    if dt is int and numpy.any(floored == 0) and kind in (
            "baker_cousins_ll", "neyman", "pearson") and ok and \
            not numpy.all(numpy.isfinite(out)):
        return "integer arrays with an empty bin, result not finite"
    return ""


def run(seq, rec):
    objs = {}
    for k in sorted(CLASSES):
        for pb in (False, True):
            objs[k, pb] = CLASSES[k](per_bin=pb)
    for op in seq:
        if op["op"] == "penalty":
            v, p, s = num(op["value"]), num(op["prior"]), num(op["sigma"])
            for (k, pb), t in sorted(objs.items()):
                ok, out, err = attempt(t.get_penalty_term, v, p, s)
                rec.event(op="penalty", kind=k, value=fl(v), prior=fl(p),
                          sigma=fl(s), ok=ok, err=err, out=fl(out))
            continue
        dt = int if op["dtype"] == "int" else float
        o0 = numpy.array([num(x) for x in op["obs"]]).astype(dt)
        e0 = numpy.array([num(x) for x in op["exp"]]).astype(dt)
        if op.get("reshape") in ("obs", "both"):
            o0 = o0.reshape((1, len(o0)))
        if op.get("reshape") in ("exp", "both"):
            e0 = e0.reshape((len(e0), 1))
        for (k, pb), t in sorted(objs.items()):
            o, e = o0.copy(), e0.copy()
            for rep in range(2):       # same arrays used twice
                ok, out, err = attempt(t.compute_statistic, o, e)
                rec.event(op="stat", kind=k, perbin=pb, obs=flat(o0),
                          exp=flat(e0), oshape=list(o0.shape),
                          eshape=list(e0.shape), ok=ok, err=err,
                          out=flat(numpy.atleast_1d(out)) if ok else [],
                          outdim=int(numpy.ndim(out)) if ok else -1,
                          obs2=flat(o), exp2=flat(e),
                          tag=tag(k, pb, dt, o0, e0, ok, out))
                if not ok:
                    break
