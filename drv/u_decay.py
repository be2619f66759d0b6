"""Driver: conversions of double-beta quantities (C22)."""
from common import fl, attempt
from u_spectrum import num
from echidna.calc import constants
from echidna.calc.decay import DBIsotope

QUANTITIES = ["eff_mass", "half_life", "activity", "counts"]
CONVERSIONS = [(a, b) for a in QUANTITIES for b in QUANTITIES
               if a != b and (a, b) not in (("eff_mass", "activity"),
                                            ("activity", "eff_mass"))]
ATOMS = ["load", "dens", "target", "scint", "radius"]
NAMES = {"load": "loading", "dens": "scint_density", "target": "target_mass",
         "scint": "scint_mass", "radius": "outer_radius"}


# ------------------------------------------------------------- generation
def uni(rng, lo, hi):
    return "%.6g" % rng.uniform(lo, hi)


def log(rng, lo, hi):
    return "%.6g" % (lo * (hi / lo) ** rng.random())


def giso(rng):
    none = lambda p, s: "none" if rng.random() < p else s
    o = {"A": uni(rng, 48, 150), "N": uni(rng, 48, 150),
         "ab": rng.choice([uni(rng, 0.01, 1), uni(rng, 0.01, 1), "1", "0"]),
         "G": log(rng, 1e-16, 1e-12), "M": uni(rng, 0.5, 8),
         "load": none(0.3, rng.choice([log(rng, 1e-3, 1), "1", "0", "0.003"])),
         "radius": none(0.3, rng.choice([uni(rng, 100, 7000), "1"])),
         "dens": none(0.3, log(rng, 1e-7, 3e-6))}
    if rng.random() < 0.2:
        o[rng.choice(["ab", "load"])] = rng.choice(
            ["-0.1", "1.0001", "-1e-9", "2", "30", "-0"])
    if rng.random() < 0.1:
        o["radius"] = rng.choice(["0", "-1", "-5997"])
    return o


def gatoms(rng):
    a = dict.fromkeys(ATOMS, "none")
    for k in rng.sample(ATOMS, rng.choice([0, 1, 1, 2, 2, 3, 5])):
        a[k] = {"load": rng.choice([log(rng, 1e-4, 1), "0", "1"]),
                "dens": log(rng, 1e-7, 3e-6),
                "target": rng.choice([log(rng, 1e-2, 1e4), "0"]),
                "scint": rng.choice([log(rng, 1, 1e6), "0"]),
                "radius": uni(rng, 100, 7000)}[k]
    if rng.random() < 0.15:
        a["load"] = rng.choice(["-0.2", "1.5"])
    if rng.random() < 0.1:
        a["radius"] = rng.choice(["0", "-10"])
    return a


def gvalue(rng, q):
    if rng.random() < 0.12:
        return rng.choice(["0", "0", "-1", "-0.001"])
    return {"eff_mass": log(rng, 1e-3, 1e2), "half_life": log(rng, 1e18, 1e28),
            "activity": log(rng, 1e-3, 1e6), "counts": log(rng, 1e-2, 1e7)}[q]


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        ops = [{"op": "new", "o": giso(rng)}]
        while ops[-1]["o"]["ab"] == "0" and rng.random() < 0.8:
            ops = [{"op": "new", "o": giso(rng)}]
        for _ in range(rng.randint(3, 7)):
            r = rng.random()
            if r < 0.08:
                ops.append({"op": "new", "o": giso(rng)})
            elif r < 0.35:
                ops.append({"op": "atoms", "a": gatoms(rng)})
            else:
                q = rng.choice(QUANTITIES)
                natoms = rng.choice(["none", log(rng, 1e22, 1e29)])
                if rng.random() < 0.06:
                    natoms = "0"
                t = rng.choice(["none", "5", "1", uni(rng, 0.05, 20)])
                if rng.random() < 0.08:
                    t = rng.choice(["0", "-1"])
                x = gvalue(rng, q)
                for _ in range(rng.randint(1, 6)):
                    to = rng.choice([b for a, b in CONVERSIONS if a == q])
                    ops.append({"op": "convert", "from": q, "to": to,
                                "n": natoms, "t": t, "x": x})
                    q, x = to, "prev"
        seqs.append(ops)
    return seqs


# -------------------------------------------------------------- execution
def consts():
    return {"me": fl(constants._electron_mass),
            "amu": fl(constants._atomic_mass_unit),
            "na": fl(constants._n_avagadro), "load": fl(constants._loading),
            "radius": fl(constants._av_radius),
            "dens": fl(constants._scint_density)}


def new(o):
    kw = {}
    for k, name in (("load", "loading"), ("radius", "outer_radius"),
                    ("dens", "scint_density")):
        if o[k] != "none":
            kw[name] = num(o[k])
    return DBIsotope("iso", num(o["A"]), num(o["N"]), num(o["ab"]),
                     num(o["G"]), num(o["M"]), **kw)


def run(seq, rec):
    iso, prev = None, None
    for op in seq:
        if op["op"] == "new":
            ok, iso, _ = attempt(new, op["o"])
            prev = None
            rec.event(**{"op": "new", "o": op["o"], "k": consts(), "ok": ok})
        elif iso is None:
            continue
        elif op["op"] == "atoms":
            kw = dict((NAMES[k], num(v)) for k, v in op["a"].items()
                      if v != "none")
            ok, y, _ = attempt(iso.get_n_atoms, **kw)
            rec.event(**{"op": "atoms", "a": op["a"], "k": consts(), "ok": ok,
                 "y": fl(y) if ok else "none"})
            prev = None
        else:
            chain = op["x"] == "prev"
            if chain and prev is None:
                continue
            x = prev if chain else num(op["x"])
            kw = {}
            pair = (op["from"], op["to"])
            if op["n"] != "none" and pair not in (
                    ("eff_mass", "half_life"), ("half_life", "eff_mass"),
                    ("activity", "counts"), ("counts", "activity")):
                kw["n_atoms"] = num(op["n"])
            if op["t"] != "none" and "counts" in pair:
                kw["livetime"] = num(op["t"])
            ok, y, _ = attempt(getattr(iso, "%s_to_%s" % pair), x, **kw)
            rec.event(**{"op": "convert", "from": op["from"], "to": op["to"],
                 "x": fl(x), "n": op["n"], "t": op["t"], "k": consts(),
                 "chain": chain, "ok": ok,
                 "y": fl(y) if ok else "none"})
            prev = y if ok else None
