"""Driver: storing spectra and results (C16, C17)."""
import copy
import json
import os
import numpy
from collections import OrderedDict
from common import fl, it, tx, flat, shape, attempt
import u_config
from u_config import gpar, see, mkcfg, num
from u_fit import Frame
from echidna.core import parameter, spectra
from echidna.core.config import (SpectraConfig, SpectraFitConfig,
                                 GlobalFitConfig)
from echidna.fit.fit_results import LimitResults
from echidna.fit.minimise import GridSearch
from echidna.output import store
import h5py


# ------------------------------------------------------------- generation
def gcell(rng):
    return rng.choice(["0", "1", "3", repr(rng.uniform(0, 50)),
                       repr(rng.uniform(0, 1e-9)), "1e+18",
                       "0.30000000000000004", "-2.5"])


def gaxes(rng):
    names = rng.sample(["energy_mc", "radial3_mc", "time_truth", "a_b_reco",
                        "Zeta_mc"], rng.choice([1, 1, 2, 3]))
    return [{"key": n, "sort": "", "par": dict(
        gpar(rng, n, "axis", "none"), bins=rng.choice([1, 2, 3]))}
        for n in names]


def gfitcfg(rng, n):
    es = [{"key": k, "sort": "", "par": gpar(rng, k, "rate", "none")}
          for k in rng.sample(["rate", "rate_2", "Te130_rate"], n)]
    return {"type": "F", "name": rng.choice(["sfc", "rates.of", "x"]),
            "sp": "Sp", "ents": es}


def gglobal(rng):
    gs, rs = [], []
    for d, s in u_config.gglobals(rng)[:3]:
        gs.append({"key": d + "_" + s, "sort": "global",
                   "par": gpar(rng, d + "_" + s, u_config.SHORT[s], d)})
    for n in rng.sample(["rate", "Te130_rate", "rate_2"], rng.randint(0, 2)):
        rs.append({"key": n, "sort": "spectra",
                   "par": gpar(rng, n, "rate", "none")})
    es = gs + rs
    if rng.random() < 0.3:
        rng.shuffle(es)
    for e in es:
        e["par"]["bins"] = rng.choice([1, 2, 3])
        if rng.random() < 0.5:
            e["par"].update(cur="none", best="none", pen="none")
    return {"type": "G", "name": rng.choice(["gfc", "fit.1", "y"]), "sp": "",
            "ents": es}


STYLES = [None, None, "default", {"color": "red"}, "b-", {}, "",
          {"color": "#00ff00", "linestyle": "--"}, {"linewidth": 2},
          {"label": "a:b;c,d"}]


def gspec(rng):
    ax = gaxes(rng)
    n = 1
    for a in ax:
        n *= a["par"]["bins"]
    return {"op": "mk_spectrum", "axes": ax,
            "cfgname": rng.choice(["config", "sc", "spectra.cfg"]),
            "name": rng.choice(["Te130_mc", "U238_reco", "mix_mc", "B8_mix",
                                "a:b_mc", "data"]),
            "bg": rng.choice(["none", "Te130", "some name"]),
            "dec": rng.choice(["0", "100", repr(rng.uniform(0, 1e6)),
                               "1e+22"]),
            "raw": rng.randint(0, 10**6), "bipo": rng.choice([0, 0, 1]),
            "style": rng.choice(STYLES),
            "cells": [gcell(rng) for _ in range(n)],
            "rois": [[k, repr(rng.uniform(0, 2)), repr(rng.uniform(2, 5)),
                      repr(rng.random())] for k in rng.sample(
                          [a["key"] for a in ax],
                          rng.choice([0, 0, 1, len(ax)]))],
            "fit": gfitcfg(rng, rng.choice([1, 1, 2, 3]))
            if rng.random() < 0.6 else None}


def gmut(rng):
    return {"op": "mutate", "how": rng.choice(
        ["scale", "cell", "style", "raw", "name", "shrink", "fit", "bipo",
         "roi", "decays"]), "x": gcell(rng)}


def ggrid(rng, fit=None, ax=None, name=None):
    return {"op": "mk_fit", "fit": fit or gglobal(rng),
            "axes": ax or gaxes(rng), "pb": rng.random() < 0.5,
            "cfgname": rng.choice(["config", "sc"]),
            "name": name or rng.choice(["none", "res", "r:1"]),
            "resets": rng.choice([0, 0, 1, 3]),
            "cells": [gcell(rng) for _ in range(7)],
            "pens": [rng.choice(["0", "1", gcell(rng)]) for _ in range(5)]
            if rng.random() < 0.7 else ["0"]}


def glimres(rng):
    fit, ax = gglobal(rng), gaxes(rng)
    ns = rng.choice([1, 2, 3])
    lim = gfitcfg(rng, 1)
    lim["ents"][0]["key"] = lim["ents"][0]["par"]["nm"] = "rate"
    lim["ents"][0]["par"]["bins"] = ns
    return {"op": "mk_limit", "fit": fit, "axes": ax, "lim": lim,
            "cfgname": rng.choice(["config", "sc"]),
            "name": rng.choice(["none", "lim", "l.1"]),
            "pb": rng.random() < 0.3,
            "cells": [gcell(rng) for _ in range(7)],
            "pens": [gcell(rng) for _ in range(5)]
            if rng.random() < 0.7 else ["0"],
            "bests": [gcell(rng) for _ in range(5)]
            if rng.random() < 0.7 else ["0"],
            "grids": [ggrid(rng, fit, ax) if rng.random() < 0.7 else None
                      for _ in range(ns)] if rng.random() < 0.5 else []}


def gattr(rng, n, kind=None):
    kind = kind or rng.choice(["none", "text", "number", "array", "array"])
    a = {"n": n, "kind": kind, "text": "", "shape": [], "cells": []}
    if kind == "text":
        a["text"] = rng.choice(["abc", "x y", "energy_mc", "a:b"])
    elif kind == "number":
        a["cells"] = [gcell(rng)]
    elif kind == "array":
        a["shape"] = rng.choice([[1], [3], [2, 2], [4]])
        a["cells"] = [gcell(rng) for _ in range(4)]
    return a


def gobject(rng):
    kinds = [(k, rng.choice(["none", "text", "number", "array", "array"]))
             for k in rng.sample(["_stats", "_name", "_low", "a", "b"],
                                 rng.randint(1, 4))]
    return [gattr(rng, k, v) for k, v in kinds], \
        [gattr(rng, k, v) for k, v in kinds if rng.random() < 0.9] + \
        ([gattr(rng, "extra")] if rng.random() < 0.3 else [])


FILES = ["a.hdf5", "b.hdf5"]


def gdump(rng, op):
    d = {"op": op, "file": rng.choice(FILES + FILES[:1]),
         "append": rng.random() < 0.5}
    d["overwrite"] = op == "dump" and rng.random() < 0.4
    return d


def gen(profile, rng, n):
    seqs = []
    for _ in range(n):
        s = [{"op": "new"}]
        if profile == "results":
            kinds = ["fit", "limit", "fit", "limit", "spectrum", "object"]
        else:
            kinds = ["spectrum"] * 5 + ["fit", "text", "old"]
        mk = {"fit": ggrid, "limit": glimres, "spectrum": gspec}
        have = set()
        if rng.random() < 0.25:     # several objects share one file
            ks = ["spectrum", rng.choice(["fit", "limit"])]
            rng.shuffle(ks)
            s += [mk[k](rng) for k in ks]
            d = [{"op": "dump" + ("" if k == "spectrum" else "_" + k),
                  "file": FILES[0], "append": True, "overwrite": False}
                 for k in ks]
            s += d
            if profile != "results":
                s += [dict(d[ks.index("spectrum")], overwrite=rng.random() < .7)]
            s += [{"op": x["op"].replace("dump", "load"), "file": FILES[0]}
                  for x in d]
            have = set(ks)
        main = rng.choice(kinds[:2])
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(kinds + [main] * 3)
            if k in mk:
                if k not in have or rng.random() < 0.3:
                    s.append(mk[k](rng))
                    have.add(k)
                sfx = "" if k == "spectrum" else "_" + k
                s.append(gdump(rng, "dump" + sfx))
                if k == "spectrum" and rng.random() < 0.4:
                    s.append(gmut(rng))
                if rng.random() < 0.85:
                    s.append({"op": "load" + sfx, "file": s[-1].get(
                        "file", rng.choice(FILES))})
                    if k == "spectrum" and rng.random() < 0.3:
                        s.append(dict(gmut(rng), loaded=True))
                        s.append({"op": "load", "file": s[-2]["file"]})
                if rng.random() < 0.2:
                    s.append({"op": rng.choice(["load", "load_fit",
                                                "load_limit"]),
                              "file": rng.choice(FILES + ["c.hdf5"])})
            elif k == "object":
                a, b = gobject(rng)
                f = rng.choice(FILES)
                s.append({"op": "save", "file": f, "attrs": a})
                s.append({"op": "restore", "file": f, "attrs": b})
            elif k == "text":
                s.append({"op": "text", "attrs": [gattr(
                    rng, "k%d" % i, rng.choice(["text", "number", "number"]))
                    for i in range(rng.randint(1, 4))]})
                for a in s[-1]["attrs"]:
                    a["text"] = a["text"].replace(":", "")
            elif k == "old":
                g = gspec(rng)
                g["axes"].sort(key=lambda a: a["key"])
                g["fit"], g["bg"], g["rois"] = None, "none", []
                g["nobipo"] = rng.random() < 0.3
                if g["nobipo"]:
                    g["bipo"] = 0
                if rng.random() < 0.3:      # the same, but in its group
                    g["op"] = "load_old"
                    g["nobipo"], g["bipo"], g["group"] = True, 0, True
                    g["bg"] = "bg"
                    s.append(g)
                    continue
                g["style"] = rng.choice(
                    [None, {"color": "red"}, {"color": "red", "width": 3},
                     {"width": 2.5, "fill": "no", "color": "green"}])
                g["cfgname"] = "spectral_config"
                g["op"] = "load_old"
                s.append(g)
        seqs.append(s)
    return seqs


# -------------------------------------------------------------- execution
def fill(shp, cells):
    n = 1
    for x in shp:
        n *= x
    return numpy.array([float(num(cells[i % len(cells)])) + (
        i // len(cells)) for i in range(n)]).reshape(shp)


def arr(a):
    return {"shape": shape(a) if hasattr(a, "shape") else [], "data": flat(
        numpy.array(a, dtype=float))}


def cfg(c):
    o = see("", c)
    return {"type": o["type"], "name": o["name"], "sp": o["sp"],
            "ents": o["ents"]}


def mkspec(o):
    c = mkcfg({"type": "S", "name": o["cfgname"], "ents": o["axes"]})
    fit = o["fit"][0] if isinstance(o["fit"], list) and o["fit"] else o["fit"]
    s = spectra.Spectra(o["name"], num(o["dec"]), c,
                        fit_config=mkcfg(fit) if fit else None,
                        background_name=None if o["bg"] == "none"
                        else o["bg"])
    s._data = fill(s._data.shape, o["cells"])
    s._raw_events = o["raw"]
    s._bipo = o["bipo"]
    if o["style"] is not None and o["style"] != "default":
        s.set_style(o["style"])
    for k, lo, hi, eff in o["rois"]:
        s._rois[k] = {"low": num(lo), "high": num(hi),
                      "efficiency": num(eff)}
    return s


def spec(s):
    ok, bg, _ = attempt(copy.copy(s).get_background_name)
    st = s.get_style()
    try:
        st = json.dumps(st, sort_keys=True)
    except Exception:
        st = "?"
    rois = s._rois
    return {"name": tx(s.get_name()), "bg": tx(bg) if ok else "",
            "dec": fl(s.get_num_decays()), "raw": it(s._raw_events),
            "bipo": it(s.get_bipo()), "style": st,
            "arr": arr(s.get_data()), "cfg": cfg(s.get_config()),
            "rois": [{"n": k, "lo": fl(rois[k]["low"]),
                      "hi": fl(rois[k]["high"]),
                      "eff": fl(rois[k]["efficiency"])}
                     for k in sorted(rois)],
            "fit": [cfg(s.get_fit_config())] if s.get_fit_config() else []}


def mkgrid(o, fitcfg=None, sc=None):
    fitcfg = fitcfg or mkcfg(o["fit"])
    sc = sc or mkcfg({"type": "S", "name": o["cfgname"], "ents": o["axes"]})
    g = GridSearch(fitcfg, sc, name=None if o["name"] == "none"
                   else o["name"], per_bin=o["pb"])
    g.set_stats(fill(g._stats.shape, o["cells"]))
    g.set_penalty_terms(fill(g._penalty_terms.shape, o["pens"]))
    g._resets = o["resets"]
    return g


def grid(g):
    return {"name": tx(g.get_name()), "stats": arr(g._stats),
            "pens": arr(g._penalty_terms), "resets": it(g.get_resets()),
            "pb": bool(g._per_bin), "fit": cfg(g.get_fit_config()),
            "cfg": cfg(g.get_spectra_config())}


def mklim(o):
    fitcfg = mkcfg(o["fit"])
    sc = mkcfg({"type": "S", "name": o["cfgname"], "ents": o["axes"]})
    r = LimitResults(fitcfg, sc, mkcfg(o["lim"]),
                     None if o["name"] == "none" else o["name"])
    shp = r._stats.shape + (sc.get_shape() if o["pb"] else ())
    r._stats = fill(shp, o["cells"])
    names = list(fitcfg.get_pars())
    pens = fill(r._penalty_terms.shape, o["pens"])
    bests = fill(r._best_fits.shape, o["bests"])
    for i in range(len(r._stats)):
        for j, n in enumerate(names):
            r.set_penalty_term(i, pens[i][j], n)
            r.set_best_fit(i, bests[i][j], n)
    for i, g in enumerate(o["grids"]):
        if not g:
            continue
        if isinstance(g, list):
            g = g[0]
        c = copy.deepcopy(fitcfg)
        for j, n in enumerate(names):
            c.get_par(n).set_best_fit(float(bests[i][j]))
            c.get_par(n).set_penalty_term(float(pens[i][j]))
        r.set_fit_result(i, mkgrid(g, c, sc))
    return r


def lim(r):
    return {"name": tx(r.get_name()), "stats": arr(r.get_stats()),
            "pens": arr(r._penalty_terms), "bests": arr(r._best_fits),
            "fit": cfg(r.get_fit_config()),
            "cfg": cfg(r.get_spectra_config()), "lim": cfg(r._limit_config),
            "fits": [[] if g is None else [grid(g)]
                     for g in r._fit_results]}


class Bag(object):
    pass


def mkobj(attrs):
    b = Bag()
    for a in attrs:
        v = None
        if a["kind"] == "text":
            v = a["text"]
        elif a["kind"] == "number":
            v = num(a["cells"][0])
        elif a["kind"] == "array":
            v = fill(tuple(a["shape"]), a["cells"])
        setattr(b, a["n"], v)
    return b


def attr(n, v):
    a = {"n": n, "kind": "other", "text": "", "arr": {"shape": [],
                                                      "data": []}}
    if v is None:
        a["kind"] = "none"
    elif isinstance(v, (str, bytes)):
        a.update(kind="text", text=tx(v))
    elif isinstance(v, numpy.ndarray) and v.shape != ():
        a.update(kind="array", arr=arr(v))
    elif fl(v) != "bad":
        a.update(kind="number", arr={"shape": [], "data": [fl(v)]})
    return a


def obj(b):
    return [attr(k, b.__dict__[k]) for k in sorted(b.__dict__)]


MK = {"mk_spectrum": ("spectrum", mkspec), "mk_fit": ("fit", mkgrid),
      "mk_limit": ("limit", mklim)}
SEE = {"spectrum": spec, "fit": grid, "limit": lim}
DUMP = {"dump": ("spectrum", "dump"), "dump_fit": ("fit", "dump_fit_results"),
        "dump_limit": ("limit", "dump_limit_results")}
LOAD = {"load": ("spectrum", "load"), "load_fit": ("fit", "load_fit_results"),
        "load_limit": ("limit", "load_limit_results")}
BLANK = dict(file="", append=False, overwrite=False, kept=True, v=[], v2=[],
             excused=False, ok=True, err="")


def mutate(s, o):
    x = num(o["x"])
    how = o["how"]
    if how == "scale":
        s.scale(5.)
    elif how == "cell":
        s._data[(0,) * s._data.ndim] += 1.5
    elif how == "style":
        s.set_style({"color": "pink"})
    elif how == "raw":
        s._raw_events += 1
    elif how == "name":
        s._name += "_mc"
    elif how == "shrink":
        k = list(s.get_config().get_pars())[0]
        p = s.get_config().get_par(k)
        if p.get_bins() > 1:
            s.shrink(**{k + "_low": p.get_low() + p.get_width()})
    elif how == "fit" and s.get_fit_config():
        c = s.get_fit_config()
        p = c.get_par(list(c.get_pars())[0])
        p.set_best_fit(float(x))
    elif how == "bipo":
        s._bipo = 1 - s._bipo
    elif how == "roi":
        s._rois[list(s.get_config().get_pars())[0]] = {
            "low": 0., "high": 1., "efficiency": .5}
    elif how == "decays":
        s._num_decays += 1.


def run(seq, rec):
    where = os.environ.get("VT_CWD", ".")
    for f in FILES + ["c.hdf5", "old.hdf5"]:
        if os.path.exists(os.path.join(where, f)):
            os.remove(os.path.join(where, f))
    cur, loaded = {}, {}

    def everything():
        return json.dumps([[k, SEE[k](d[k])] for d in (cur, loaded)
                           for k in sorted(d)], sort_keys=True)

    def note(op, **k):
        e = dict(BLANK)
        e.update(k)
        rec.event(op=op, **e)

    for o in seq:
        op = o["op"]
        path = os.path.join(where, o["file"]) if "file" in o else ""
        if op == "new":
            note("new")
        elif op in MK:
            k, f = MK[op]
            cur[k] = f(o)
            note("other")
        elif op == "mutate":
            d = loaded if o.get("loaded") else cur
            if "spectrum" in d:
                ok, _, err = attempt(mutate, d["spectrum"], o)
            note("other")
        elif op in DUMP:
            k, f = DUMP[op]
            if k not in cur:
                continue
            v = SEE[k](cur[k])
            before = everything()
            kw = {"append": o["append"]}
            if op == "dump":
                kw["overwrite"] = o["overwrite"]
            ok, _, err = attempt(getattr(store, f), path, cur[k], **kw)
            note(op, file=o["file"], append=o["append"],
                 overwrite=o["overwrite"], v=[v], ok=ok, err=err,
                 excused=k == "spectrum" and v["bg"] == "",
                 kept=before == everything())
        elif op in LOAD:
            k, f = LOAD[op]
            before = everything()
            ok, r, err = attempt(getattr(store, f), path)
            kept = before == everything()
            v = []
            if ok:
                ok, v, err = attempt(lambda: [SEE[k](r)])
                loaded[k] = r
            note(op, file=o["file"], v=v or [], ok=ok, err=err, kept=kept)
        elif op == "save":
            b = mkobj(o["attrs"])
            v = obj(b)
            ok, _, err = attempt(store.dump_ndarray, path, b)
            note(op, file=o["file"], v=v, ok=ok, err=err)
        elif op == "restore":
            b = mkobj(o["attrs"])
            v = obj(b)
            ok, r, err = attempt(store.load_ndarray, path, b)
            note(op, file=o["file"], v=v, v2=obj(b) if ok and r is b else [],
                 ok=ok, err=err)
        elif op == "text":
            b = mkobj(o["attrs"])
            ok, r, err = attempt(lambda: store.string_to_dict(
                store.dict_to_string(b.__dict__)))
            note(op, v=obj(b), v2=[attr(k, r[k]) for k in sorted(r)]
                 if ok else [], ok=ok, err=err)
        elif op == "load_old":
            s = mkspec(o)
            if o.get("group"):
                if not attempt(store.dump, os.path.join(where, "old.hdf5"),
                               s)[0]:
                    continue
                with h5py.File(os.path.join(where, "old.hdf5"), "a") as f:
                    if "bipo" in f["spectrum"].attrs:
                        del f["spectrum"].attrs["bipo"]
            else:
                old(os.path.join(where, "old.hdf5"), s, o.get("nobipo"))
            v = spec(s)
            ok, r, err = attempt(store.load, os.path.join(where, "old.hdf5"))
            v2 = []
            if ok:
                ok, v2, err = attempt(lambda: [spec(r)])
            note(op, v=[v], v2=v2 or [], ok=ok, err=err)


def old(path, s, nobipo=False):
    """A file as written before groups were used."""
    with h5py.File(path, "w") as f:
        c = s.get_config()
        for n in c.get_pars():
            p = c.get_par(n)
            for w, x in (("low", p.get_low()), ("high", p.get_high()),
                         ("bins", p.get_bins())):
                f.attrs["pars:%s:%s" % (n, w)] = x
        f.attrs["name"] = s.get_name()
        f.attrs["num_decays"] = s.get_num_decays()
        f.attrs["raw_events"] = s._raw_events
        if not nobipo:
            f.attrs["bipo"] = s._bipo
        st = s.get_style()
        f.attrs["style"] = "" if st == {"color": "blue"} else \
            ",".join("%s:%s;%s" % (k, st[k], type(st[k]).__name__)
                     for k in st)
        f.attrs["rois"] = ""
        f.create_dataset("data", data=s._data, compression="gzip")
