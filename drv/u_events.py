"""Driver: spectra filled from event files (C23)."""
import json
import os
from common import fl, it, flat, attempt
from u_spectrum import num, make, axes_of
from echidna.core import dsextract, fill_spectrum

CLS = {"energy_mc": "EnergyExtractMC", "energy_reco": "EnergyExtractReco",
       "energy_truth": "EnergyExtractTruth", "radial_mc": "RadialExtractMC",
       "radial_reco": "RadialExtractReco", "radial3_mc": "Radial3ExtractMC",
       "radial3_reco": "Radial3ExtractReco",
       "zradial3_mc": "ZRadial3ExtractMC",
       "zradial3_reco": "ZRadial3ExtractReco"}
DIMS = sorted(CLS)
AV = 5997.


# ------------------------------------------------------------- generation
def pos(rng, near=None):
    if near is not None and rng.random() < 0.8:
        v = [float(c) + rng.gauss(0, 150) for c in near]
    else:
        r = 6500 * rng.random() ** (1. / 3)
        v = [rng.gauss(0, 1) for _ in range(3)]
        m = sum(c * c for c in v) ** 0.5 or 1.
        v = [c * r / m for c in v]
    return [repr(round(c, 2)) for c in v]


def energy(rng):
    return rng.choice([repr(round(rng.uniform(0, 6), 3)),
                       repr(round(rng.uniform(1.5, 4), 3)),
                       repr(rng.randint(0, 24) * 0.25)])


def gev(rng, where, e):
    fit = rng.random() < 0.88
    ok = rng.random() < 0.85
    g = lambda v: {"has": fit and (ok or rng.random() < 0.6),
                   "ok": fit and (ok or rng.random() < 0.5), "v": v}
    return {"fit": fit, "p": g(pos(rng, where)),
            "e": g(repr(round(max(0., float(e) + rng.gauss(0, 0.2)), 3)))}


def gentry(rng):
    where, e = pos(rng), energy(rng)
    parts = [where] + [pos(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.06:
        parts = []
    n = rng.choice([0, 1, 1, 1, 1, 2, 3])
    return {"parts": parts, "edep": e, "evs": [gev(rng, where, e) for _ in range(n)],
            "quenched": repr(round(float(e) * rng.uniform(0.8, 1), 3))}


def grows(rng, n):
    rows = []
    while len(rows) < n:
        where, e = pos(rng), energy(rng)
        q = repr(round(float(e) * rng.uniform(0.8, 1), 3))
        k = rng.choice([-1, 1, 1, 1, 2, 2, 3])
        for i in ([-1] if k < 0 else range(k)):
            fit = i >= 0 and rng.random() < 0.85
            rows.append({
                "mc": 0 if rng.random() < 0.06 else 1, "evIndex": i,
                "scintFit": 1 if fit else rng.choice([0, 0, -1]),
                "energy": repr(round(max(0., float(e) + rng.gauss(0, 0.2)), 3))
                if fit and rng.random() < 0.95 else
                rng.choice(["0", "-1", "-99999", "2.5"]),
                "pos": pos(rng, where) if fit or rng.random() < 0.5 else
                ["-99999", "-99999", "-99999"],
                "mcPos": where, "mcEdep": e, "mcEdepQuenched": q})
    return rows[:n] if rng.random() < 0.3 else rows


def gfile(rng, kind, n):
    if kind == "root":
        return {"kind": kind, "events": [gentry(rng) for _ in range(n)]}
    return {"kind": kind, "events": grows(rng, n) if n else []}


def gaxis(rng, d):
    if d.startswith("energy"):
        lo, hi, b = rng.choice([("0", "5", 10), ("1", "4", 6), ("0", "10", 5),
                                ("0.5", "3", 10)])
    elif d.startswith("radial_"):
        lo, hi, b = rng.choice([("0", "6000", 6), ("0", "3500", 7),
                                ("1000", "6500", 4)])
    elif d.startswith("radial3"):
        lo, hi, b = rng.choice([("0", "1", 5), ("0", "0.5", 3),
                                ("0", "2", 4)])
    else:
        lo, hi, b = rng.choice([("-1", "1", 6), ("-0.5", "0.5", 5),
                                ("0", "1", 4)])
    return {"n": d, "lo": lo, "hi": hi, "b": b}


def gaxes(rng, mode):
    pool = {"mc": [d for d in DIMS if not d.endswith("reco")],
            "reco": [d for d in DIMS if d.endswith("reco")],
            "mix": DIMS}[mode]
    ds = rng.sample(pool, rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.04:
        ds[-1] = rng.choice(["charge_mc", "energy_raw", "energy", "z_reco"])
    return [gaxis(rng, d) for d in ds]


def gopts(rng):
    o = {"fv": "none", "outer": "none", "ext": False, "bipo": False}
    if rng.random() < 0.5:
        o["fv"] = repr(round(rng.uniform(1500, 6500), 1))
    if rng.random() < 0.4:
        o["outer"] = rng.choice(["6000", "3500", repr(round(rng.uniform(
            1500, 8000), 1))])
    o["ext"] = rng.random() < 0.2
    o["bipo"] = rng.random() < 0.4
    return o


def spread(rng):
    """A position where leaving out any one coordinate shows."""
    r = rng.uniform(1500, 6500)
    v = [rng.uniform(0.3, 1) * rng.choice([1, -1]) for _ in range(3)]
    m = sum(c * c for c in v) ** 0.5
    return [repr(round(c * r / m, 2)) for c in v]


def gcut(rng, k):
    """Extractions of one kind, of events around its fiducial radius."""
    d, kind = DIMS[k % 9], ["root", "ntuple"][k // 9 % 2]
    other, ext = k // 18 % 2 == 0, k // 36 % 4 == 3
    ops = []
    for _ in range(8):
        mc, reco = spread(rng), spread(rng)
        e, q, m = [repr(round(rng.uniform(0.5, 6), 3)) for _ in range(3)]
        fit = rng.random() < 0.85
        if kind == "root":
            has = [rng.random() < 0.9 for _ in range(4)]
            ev = {"parts": [mc] + [spread(rng)] * rng.choice([0, 0, 1]),
                  "edep": e, "quenched": q,
                  "evs": [{"fit": fit,
                           "p": {"has": fit and has[0],
                                 "ok": fit and has[1], "v": reco},
                           "e": {"has": fit and has[2],
                                 "ok": fit and has[3], "v": m}}]}
            if rng.random() < 0.15 and not d.endswith("reco"):
                ev["evs"] = rng.choice([[], [], ev["evs"] * 2])
            if rng.random() < 0.04 and not d.endswith("reco"):
                ev["parts"] = []
        else:
            ev = {"mc": int(rng.random() < 0.95), "evIndex": 0,
                  "scintFit": 1 if fit else
                  rng.choice([0, -1]), "energy": m, "pos": reco,
                  "mcPos": mc, "mcEdep": e, "mcEdepQuenched": q}
        r = sum(float(c) ** 2 for c in rng.choice([mc, reco])) ** 0.5
        ops.append({"op": "extract", "kind": kind, "event": ev,
                    "trig": 1 if kind == "root" and d.endswith("reco") else 0,
                    "x": {"dim": d, "ext": ext, "other": other,
                          "fv": "none" if rng.random() < 0.1 else
                          repr(round(r * rng.uniform(0.8, 1.25), 1))
                          if rng.random() < 0.7 else    # just in or out
                          repr(r * (1 + rng.choice([-1, 1]) * 1e-8)),
                          "outer": repr(round(rng.uniform(1500, 8000), 1))
                          if "3" in d and rng.random() < 0.4 else "none"}})
    return ops


def gen(profile, rng, n):
    seqs = []
    if profile == "cuts":           # every extractor and source in turn
        at = rng.randrange(144)
        return [gcut(rng, at + k) for k in range(n)]
    for _ in range(n):
        ops = []
        if rng.random() < 0.35:         # extractors one by one
            for _ in range(rng.randint(3, 8)):
                d = rng.choice(DIMS)
                kind = rng.choice(["root", "ntuple"])
                f = gfile(rng, kind, 1)
                while not f["events"] or (
                        kind == "root" and d.endswith("reco") and
                        not f["events"][0]["evs"]):
                    f = gfile(rng, kind, 1)
                o = gopts(rng)
                e = f["events"][0]
                ops.append({"op": "extract", "kind": kind, "event": e,
                            "trig": rng.randint(1, max(1, len(e["evs"])))
                            if kind == "root" and d.endswith("reco") else 0,
                            "x": {"dim": d, "fv": o["fv"], "ext": o["ext"],
                                  "outer": o["outer"] if "3" in d else "none",
                                  "other": rng.random() < 0.35}})
            seqs.append(ops)
            continue
        made = 0
        for k in range(rng.randint(1, 4)):
            o = gopts(rng)
            kind = rng.choice(["root", "ntuple"])
            axes = gaxes(rng, rng.choice(["mc", "reco", "mix"]))
            i = 0
            if made and rng.random() < 0.55:
                i, axes = rng.randint(1, made), []
            size = rng.choice([0, 1, 2, 3, 5, 8])
            ops.append({"op": "fill", "i": i, "axes": axes,
                        "file": gfile(rng, kind, size), "o": o,
                        "name": "" if rng.random() < 0.04 else
                        "spec%d" % k,
                        "config": rng.choice(["object", "path"]),
                        "plain": rng.random() < 0.3})
            made += i == 0
        seqs.append(ops)
    return seqs


# -------------------------------------------------------------- execution
def write(f, k):
    """The file as the stand-in for ROOT reads it."""
    if f["kind"] == "root":
        d = {"entries": f["events"]}
    else:
        d = {"rows": []}
        for r in f["events"]:
            row = dict(mc=r["mc"], evIndex=r["evIndex"],
                       scintFit=r["scintFit"], energy=float(r["energy"]),
                       mcEdep=float(r["mcEdep"]),
                       mcEdepQuenched=float(r["mcEdepQuenched"]))
            for c, p, m in zip("xyz", r["pos"], r["mcPos"]):
                row["pos" + c], row["mcPos" + c] = float(p), float(m)
            d["rows"].append(row)
    name = "events%d.%s" % (k, "root" if f["kind"] == "root" else "ntuple.root")
    with open(name, "w") as out:
        json.dump(d, out)
    return name


def state(s):
    return {"axes": axes_of(s), "data": flat(s.get_data()),
            "dec": fl(s.get_num_decays()), "raw": it(s._raw_events),
            "bipo": it(s._bipo), "name": str(s.get_name())}


def options(o, plain=False):
    kw = {}
    if o["fv"] != "none" or not plain:
        kw["fv_radius"] = None if o["fv"] == "none" else num(o["fv"])
    if o["outer"] != "none":
        kw["outer_radius"] = num(o["outer"])
    if o["ext"] or not plain:
        kw["external"] = o["ext"]
    return kw


def config(op, k):
    _, cfg = make(op["axes"], "1")
    if op["config"] == "object":
        return cfg
    name = "config%d.yml" % k
    with open(name, "w") as out:
        out.write("parameters:\n")
        for a in op["axes"]:
            out.write("  %s:\n    low: %s\n    high: %s\n    bins: %d\n"
                      % (a["n"], float(a["lo"]), float(a["hi"]), a["b"]))
    return name


def fill(op, k, live):
    f = getattr(fill_spectrum, "fill_from_" + op["file"]["kind"])
    kw = options(op["o"], op["plain"])
    if op["o"]["bipo"] or not op["plain"]:
        kw["bipo"] = op["o"]["bipo"]
    name = write(op["file"], k)
    if op["i"]:
        return attempt(f, name, spectrum=live[op["i"] - 1], **kw)
    return attempt(f, name, spectrum_name=op["name"], config=config(op, k),
                   **kw)


class Held(object):
    """One event, for extractors used on their own."""

    def __init__(self, kind, event):
        import ROOT
        name = write({"kind": kind, "events": [event]}, 0)
        if kind == "root":
            self.ds = ROOT.RAT.DU.DSReader(name).GetEntry(0)
        else:
            self.row = ROOT.TChain("output")
            self.row.Add(name)
            self.row.GetEntry(0)


def extractor(x):
    kw = options(x)
    if not x["other"]:
        return dsextract.function_factory(x["dim"], **kw)
    kw["mc_pos" if x["dim"].endswith("reco") else "reco_pos"] = True
    return getattr(dsextract, CLS[x["dim"]])(**kw)


def extract(op):
    e = {"op": "extract", "kind": op["kind"], "event": op["event"],
         "trig": op["trig"], "x": op["x"], "made": False, "ok": False,
         "valid": False, "y": "none"}
    e["made"], ex, _ = attempt(extractor, op["x"])
    if not e["made"]:
        return e
    h = Held(op["kind"], op["event"])
    if op["kind"] == "root":
        what = h.ds.GetEV(op["trig"] - 1) if op["trig"] else h.ds.GetMC()
        e["ok"], v, _ = attempt(ex.get_valid_root, what, h.ds)
        value = lambda: ex.get_value_root(what)
    else:
        e["ok"], v, _ = attempt(ex.get_valid_ntuple, h.row)
        value = lambda: ex.get_value_ntuple(h.row)
    e["valid"] = bool(v)
    if e["valid"]:
        ok, y, _ = attempt(value)
        e["y"] = fl(y) if ok else "none"
    return e


def run(seq, rec):
    os.chdir(os.environ.get("VT_CWD", "."))
    rec.event(op="start")
    live = []
    for k, op in enumerate(seq):
        if op["op"] == "extract":
            rec.event(**extract(op))
            continue
        if op["i"] > len(live):
            continue
        ok, s, err = fill(op, k, live)
        if ok and not op["i"]:
            live.append(s)
        rec.event(op="fill", i=op["i"], axes=op["axes"], file=op["file"],
                  o=op["o"], name=op["name"], ok=ok, err=err,
                  returned=ok and (op["i"] == 0 or s is live[op["i"] - 1]),
                  heap=[state(s) for s in live])
