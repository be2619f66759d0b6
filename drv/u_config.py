"""Driver: configurations, their dictionary/YAML form and their assembly
(C09, C25)."""
import os
import shutil
from collections import OrderedDict
import numpy
import yaml
from common import fl, it, tx, attempt
from echidna.core import config, parameter
from echidna.core.config import (SpectraConfig, SpectraFitConfig,
                                 GlobalFitConfig)

KINDS = {"rate": parameter.RateParameter, "res": parameter.ResolutionParameter,
         "scale": parameter.ScaleParameter, "shift": parameter.ShiftParameter,
         "axis": parameter.SpectraParameter}
SHORT = {"scale": "scale", "shift": "shift", "resolution": "res",
         "resolution_ly": "res"}


# ------------------------------------------------------------- generation
def gval(rng):
    return rng.choice(["1", "0.5", "1e-05", "250", "0.1", "3.3333333333333335",
                       "12345678.9", "1e+22", "-4",
                       repr(round(rng.uniform(-50, 900), rng.randint(0, 6)))])


def gpar(rng, nm, kind, dim):
    lo = round(rng.uniform(0.1, 50), rng.randint(0, 4))
    hi = lo + round(rng.uniform(0.1, 99), 3)
    mode = rng.choice(["linear", "linear", "log", "dev"])
    p = {"nm": nm, "kind": kind, "dim": dim, "lo": repr(lo), "hi": repr(hi),
         "bins": rng.randint(1, 40), "prior": gval(rng),
         "sigma": rng.choice(["none", "1", gval(rng)]), "log": False,
         "base": "none", "dev": False, "cur": "none", "best": "none",
         "pen": "none", "np": rng.random() < 0.3}
    if kind == "axis":
        p.update(prior="0", sigma="none")
        return p
    if mode == "log":
        p.update(log=True, base=rng.choice(["10", "2", "2.718281828459045"]))
    elif mode == "dev":
        p.update(dev=True)
    for k in ("cur", "best", "pen"):
        if rng.random() < 0.5:
            p[k] = rng.choice([gval(rng), "0"])
    return p


DIMS = ["energy", "radial3", "energy_mc", "radial", "en", "time"]


def gglobals(rng):
    out = []
    for _ in range(rng.randint(0, 5)):
        d = rng.choice(DIMS)
        s = rng.choice(sorted(SHORT))
        if not [1 for x in out if x[0] == d and x[1] == s]:
            out.append((d, s))
    return out


def grates(rng, lo=0):
    return rng.sample(["rate", "Te130_rate", "rate_2", "bi214_rate",
                       "separate", "rate_energy_scale"], rng.randint(lo, 4))


def gents(rng, t):
    if t == "S":
        names = rng.sample(["energy_mc", "energy_reco", "radial3_mc",
                            "radial_mc", "time_truth", "a_b_c_d"],
                           rng.randint(1, 4))
        return [{"key": n, "sort": "", "par": gpar(rng, n, "axis", "none")}
                for n in names]
    if t == "F":
        return [{"key": n, "sort": "", "par": gpar(rng, n, "rate", "none")}
                for n in grates(rng, 1)]
    es = [{"key": d + "_" + s, "sort": "global",
           "par": gpar(rng, d + "_" + s, SHORT[s], d)}
          for d, s in gglobals(rng)]
    es += [{"key": n, "sort": "spectra", "par": gpar(rng, n, "rate", "none")}
           for n in grates(rng) if "scale" not in n]
    rng.shuffle(es)
    return es


def gname(rng):
    return rng.choice(["none", "", "cfg", "my.config", "a_b"])


def gen_seq(rng, profile):
    s, typ, used, n = [], {}, set(), [0]

    def new(t):
        n[0] += 1
        i = "c%d" % n[0]
        s.append({"op": "new", "id": i, "type": t,
                  "name": rng.choice(["alpha", "b.c", "x_y"]) + str(n[0]),
                  "sp": "Sp%d" % n[0] if t == "F" else "",
                  "ents": gents(rng, t)})
        typ[i] = t
        return i

    for t in (["G", "F"] if profile == "assemble" else
              [rng.choice("SFG")]):
        new(t)
    for _ in range(rng.randint(2, 6)):
        i = rng.choice(sorted(typ))
        t = typ[i]
        r = rng.random()
        if profile == "assemble" and r < 0.55:
            g = rng.choice([j for j in sorted(typ) if typ[j] == "G"])
            src = rng.choice(sorted(typ))
            if rng.random() < 0.6:
                src = new(rng.choice("FFGS"))
            if src != g and (src not in used or typ[src] == "S"):
                s.append({"op": "addcfg", "id": g, "src": src})
                if typ[src] != "S":
                    used.add(src)
            elif typ[src] != "S" and src != g:
                pass
            continue
        if r < 0.7 and profile == "assemble" or r < 0.15:
            if t == "G" and rng.random() < 0.5:
                d, h = rng.choice(DIMS), rng.choice(sorted(SHORT))
                p = gpar(rng, d + "_" + h, SHORT[h], d)
                sort = "global"
            elif t == "S":
                p = gpar(rng, rng.choice(["energy_mc", "q_reco"]), "axis",
                         "none")
                sort = ""
            else:
                p = gpar(rng, rng.choice(["rate", "new_rate", "Sp1_rate"]),
                         "rate", "none")
                sort = "spectra"
            if rng.random() < 0.15 and t == "G":
                sort = rng.choice(["other", "", "Global", "spectral"])
            s.append({"op": "addpar", "id": i, "par": p, "sort": sort})
        elif r < 0.8:
            n[0] += 1
            to = "c%d" % n[0]
            via = rng.choice(["dict", "yaml"])
            s.append({"op": "trip", "id": i, "to": to, "via": via,
                      "basic": rng.random() < 0.3, "asked": gname(rng),
                      "f1": rng.choice(["none", "", "first", "a.yml"]),
                      "f2": rng.choice(["none", "", "second", "b.yml"])})
            typ[to] = t
        elif r < 0.9 and i not in used:
            s.append({"op": "update", "id": i, "k": rng.randint(0, 9),
                      "np": rng.random() < 0.5, "prior": gval(rng),
                      "cur": gval(rng), "best": gval(rng), "pen": gval(rng),
                      "bins": rng.randint(1, 30)})
        else:
            n[0] += 1
            to = "c%d" % n[0]
            t = rng.choice("SFG")
            es = gents(rng, t)
            glob, flat = OrderedDict(), []
            for e in es:
                if e["sort"] == "global":
                    d = e["par"]["dim"]
                    glob.setdefault(d, []).append(
                        {"short": e["key"][len(d) + 1:], "par": e["par"]})
                else:
                    flat.append({"short": e["key"], "par": e["par"]})
            glob = [{"dim": d, "items": v} for d, v in glob.items()]
            broken = ""
            if rng.random() < 0.5:
                broken = rng.choice(["section", "field", "kind"])
            if broken == "kind":
                broken = ""
                bad = rng.choice(["stretch", "offset", "sclae"])
                if t == "G" and rng.random() < 0.5:
                    e = gpar(rng, "energy_" + bad, "scale", "energy")
                    glob.append({"dim": "time2", "items": [{"short": bad,
                                                            "par": e}]})
                elif t != "S":
                    flat.append({"short": bad,
                                 "par": gpar(rng, bad, "rate", "none")})
            if broken == "field" and not flat and not glob:
                broken = ""
            s.append({"op": "load", "to": to, "type": t, "glob": glob,
                      "flat": flat, "broken": broken, "asked": gname(rng),
                      "via": rng.choice(["dict", "yaml"]),
                      "sp": "SpX" if t == "F" else "",
                      "cut": rng.randint(0, 1)})
            typ[to] = t
    return s


def gshipped(rng):
    """Load the example files that come with the code, then use them."""
    s = []
    for k, (t, one, two) in enumerate(rng.sample(
            [("S", "spectra_example.yml", ""), ("S", "spectra_example2.yml",
                                                ""),
             ("F", "spectra_fit_example.yml", ""),
             ("G", "fit_example.yml", "spectra_fit_example.yml"),
             ("G", "fit_example2.yml", "spectra_fit_example.yml")], 3)):
        s.append({"op": "load", "to": "e%d" % k, "type": t, "glob": [],
                  "flat": [], "broken": "", "asked": gname(rng),
                  "via": "shipped", "sp": "SpX" if t == "F" else "",
                  "cut": 0, "one": one, "two": two})
        s.append({"op": "trip", "id": "e%d" % k, "to": "t%d" % k,
                  "via": rng.choice(["dict", "yaml"]), "basic": False,
                  "asked": gname(rng), "f1": "none", "f2": "none"})
    return s


def gen(profile, rng, n):
    return [gshipped(rng) if k % 60 == 7 else gen_seq(rng, profile)
            for k in range(n)]


# -------------------------------------------------------------- execution
def num(t):
    if t == "none":
        return None
    try:
        return int(t)
    except ValueError:
        return float(t)


def mkpar(p):
    np = p.get("np", False)
    cls = KINDS[p["kind"]]
    if p["kind"] == "axis":
        return cls(p["nm"], num(p["lo"]), num(p["hi"]), p["bins"])
    kw = {}
    if p["log"]:
        kw["logscale"] = True
        if p["base"] != "none":
            kw["base"] = num(p["base"])
    if p["dev"]:
        kw["logscale_deviation"] = True
    if p["kind"] != "rate":
        kw["dimension"] = p["dim"]
    sigma = num(p["sigma"])
    if sigma is not None and p.get("np"):
        sigma = numpy.float64(sigma)
    q = cls(p["nm"], num(p["prior"]), sigma, num(p["lo"]),
            num(p["hi"]), p["bins"], **kw)
    wrap = numpy.float64 if np else (lambda x: x)
    if p["cur"] != "none":
        q.set_current_value(wrap(num(p["cur"])))
    if p["best"] != "none":
        q.set_best_fit(wrap(num(p["best"])))
    if p["pen"] != "none":
        q.set_penalty_term(wrap(num(p["pen"])))
    return q


def mkcfg(o):
    d = OrderedDict()
    for e in o["ents"]:
        p = mkpar(e["par"])
        d[e["key"]] = {"par": p, "type": e["sort"]} if o["type"] == "G" else p
    if o["type"] == "G":
        return GlobalFitConfig(o["name"], d)
    if o["type"] == "F":
        return SpectraFitConfig(o["name"], d, o["sp"])
    return SpectraConfig(o["name"], d)


def optional(f):
    ok, v, _ = attempt(f)
    return fl(v) if ok and v is not None else "none"


def required(f):
    """A value that is refused (an error) while it is not set."""
    ok, v, _ = attempt(f)
    return fl(v) if ok else "none"


def seepar(p):
    kind = "unknown"
    for k, c in KINDS.items():
        if type(p) is c:
            kind = k
    d = {"nm": tx(p.get_name()), "kind": kind, "lo": fl(p.get_low()),
         "hi": fl(p.get_high()), "bins": it(p.get_bins()), "dim": "none",
         "prior": "0", "sigma": "none", "log": False, "base": "none",
         "dev": False, "cur": "none", "best": "none", "pen": "none"}
    if kind == "axis":
        return d
    d.update(dim=tx(p.get_dimension()), prior=fl(p.get_prior()),
             sigma=optional(p.get_sigma), cur=required(p.get_current_value),
             best=required(p.get_best_fit), pen=required(p.get_penalty_term),
             log=bool(getattr(p, "_logscale", None)),
             dev=bool(getattr(p, "_logscale_deviation", None)))
    d["base"] = optional(lambda: p._base) if d["log"] else "none"
    return d


def see(i, c):
    t = {"global_fit": "G", "spectra_fit": "F", "spectra": "S"}.get(
        c.get_type(), "?")
    o = {"id": i, "type": t, "name": tx(c.get_name()),
         "sp": tx(getattr(c, "_spectra_name", "")), "ents": [], "index": [],
         "byindex": [], "shape": [], "unknown_par": False,
         "unknown_index": False, "globals": [], "spectrals": [],
         "coherent": True, "dims": [], "dim_of": [], "type_of": []}

    def fill():
        keys = list(c.get_pars())
        glob = c.get_global_pars() if t == "G" else []
        for n, k in enumerate(keys):
            p = c.get_par(k)
            sort = ""
            if t == "G":
                sort = "global" if any(p is g for g in glob) else "spectra"
            o["ents"].append({"key": k, "sort": sort, "par": seepar(p)})
            ok, v, _ = attempt(c.get_index, k)
            o["index"].append(it(v) if ok else -1)
            # keys() cannot be indexed in Python 3: give it what Python 2 has
            ok, v, _ = attempt(c.get_par_by_index, n)
            o["byindex"].append(bool(ok and v is p))
        o["shape"] = [it(x) for x in c.get_shape()]
        o["unknown_par"] = attempt(c.get_par, "no_such_par")[0]
        o["unknown_index"] = attempt(c.get_index, "no_such_par")[0]
        if t == "G":
            o["globals"] = [tx(p.get_name()) for p in glob]
            o["spectrals"] = [tx(p.get_name()) for p in c.get_spectra_pars()]
        if t == "S":
            o["unknown_index"] |= attempt(c.get_dim_type, "no_such_dim")[0]
            o["dims"] = [tx(x) for x in c.get_dims()]
            o["dim_of"] = [tx(c.get_dim(k)) for k in keys]
            o["type_of"] = [tx(attempt(c.get_dim_type, c.get_dim(k))[1])
                            for k in keys]

    ok, _, err = attempt(fill)
    o["coherent"] = ok
    k = len(o["ents"])
    for f, v in (("index", -1), ("byindex", False), ("dim_of", ""),
                 ("type_of", "")):
        o[f] = (o[f] + [v] * k)[:k]
    return o


def fields(p, broken):
    d = OrderedDict()
    if p["kind"] != "axis":
        d["prior"] = num(p["prior"])
        d["sigma"] = num(p["sigma"])
    d["low"], d["high"], d["bins"] = num(p["lo"]), num(p["hi"]), p["bins"]
    if p["kind"] != "axis":
        if p["log"]:
            d["logscale"] = True
            if p["base"] != "none":
                d["base"] = num(p["base"])
        if p["dev"]:
            d["logscale_deviation"] = True
        for k, n in (("cur", "current_value"), ("best", "best_fit"),
                     ("pen", "penalty_term")):
            if p[k] != "none":
                d[n] = num(p[k])
    if broken:
        d["sideways"] = 1
    return d


def ytext(d, ind=0):
    out = ""
    for k, v in d.items():
        if isinstance(v, dict):
            out += " " * ind + k + ":" + ("" if v else " {}") + "\n"
            out += ytext(v, ind + 4)
        else:
            v = "null" if v is None else str(v).lower() \
                if isinstance(v, bool) else repr(float(v)) \
                if isinstance(v, float) else str(v)
            if "e" in v and v[0] in "-0123456789" and "." not in v:
                v = v.replace("e", ".0e")
            out += " " * ind + "%s: %s\n" % (k, v)
    return out


def described(nm, kind, dim, d):
    """What a file says about a parameter."""
    def t(k):
        return "none" if d.get(k) is None else repr(d[k])
    return {"nm": nm, "kind": kind, "dim": dim, "lo": t("low"),
            "hi": t("high"), "bins": int(d["bins"]),
            "prior": "0" if kind == "axis" else t("prior"),
            "sigma": t("sigma"), "log": bool(d.get("logscale")),
            "base": t("base"), "dev": bool(d.get("logscale_deviation")),
            "cur": t("current_value"), "best": t("best_fit"),
            "pen": t("penalty_term"), "np": False}


def shipped(o):
    """Paths of example files, and what they say."""
    base = os.path.join(os.path.dirname(config.__file__), "..", "config")
    paths = [os.path.join(base, f) for f in (o["one"], o["two"]) if f]
    docs = [yaml.safe_load(open(p)) for p in paths]
    glob, flat = [], []
    for d in docs:
        for dim, its in d.get("global_fit_parameters", {}).items():
            glob.append({"dim": dim, "items": [
                {"short": h, "par": described(dim + "_" + h, SHORT[h], dim, v)}
                for h, v in its.items()]})
        for n, v in d.get("spectral_fit_parameters", {}).items():
            flat.append({"short": n, "par": described(n, "rate", "none", v)})
        for n, v in d.get("parameters", {}).items():
            flat.append({"short": n, "par": described(n, "axis", "none", v)})
    return paths, glob, flat


CLS = {"G": GlobalFitConfig, "F": SpectraFitConfig, "S": SpectraConfig}
BLANK = {"ok": True, "err": "", "id": "", "src": "", "to": "", "type": "",
         "name": "", "sp": "", "ents": [], "sort": "", "via": "", "f1": "",
         "f2": "", "asked": "", "basic": False, "files": [], "glob": [],
         "flat": [], "broken": "", "key": "",
         "par": {"prior": "0", "cur": "none", "best": "none", "pen": "none",
                 "bins": 0, "nm": ""}}


def run(seq, rec):
    cfgs = OrderedDict()
    base = os.path.join(os.environ.get("VT_CWD", "."), "cfg")

    def note(o, ok, err, **k):
        e = dict(BLANK)
        e.update({x: o[x] for x in o if x in BLANK})
        e.update(ok=ok, err=err, **k)
        e["cfgs"] = [see(i, c) for i, c in cfgs.items()]
        rec.event(op=o["op"], **e)

    def fresh():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        return base + "/"

    def arg(n):
        return None if n == "none" else n

    for o in seq:
        op = o["op"]
        if op == "new":
            ok, c, err = attempt(mkcfg, o)
            if ok:
                cfgs[o["id"]] = c
            note(o, ok, err)
        elif op == "addpar":
            if o["id"] not in cfgs:
                continue
            c = cfgs[o["id"]]
            p = mkpar(o["par"])
            a = (p, o["sort"]) if c.get_type() == "global_fit" else (p,)
            ok, _, err = attempt(c.add_par, *a)
            note(o, ok, err)
        elif op == "addcfg":
            if o["id"] not in cfgs or o["src"] not in cfgs:
                continue
            ok, _, err = attempt(cfgs[o["id"]].add_config, cfgs[o["src"]])
            note(o, ok, err)
        elif op == "update":
            if o["id"] not in cfgs:
                continue
            c = cfgs[o["id"]]
            keys = list(c.get_pars())
            if not keys:
                continue
            key = keys[o["k"] % len(keys)]
            p = c.get_par(key)
            w = numpy.float64 if o["np"] else (lambda x: x)

            def up():
                p.set_par(bins=numpy.int64(o["bins"]) if o["np"]
                          else o["bins"])
                if type(p) is not parameter.SpectraParameter:
                    p.set_par(prior=w(num(o["prior"])))
                    p.set_current_value(w(num(o["cur"])))
                    p.set_best_fit(w(num(o["best"])))
                    p.set_penalty_term(w(num(o["pen"])))
            axis = type(p) is parameter.SpectraParameter
            ok, _, err = attempt(up)
            par = {k: o[k] for k in ("prior", "cur", "best", "pen", "bins")}
            if axis:
                par.update(prior="0", cur="none", best="none", pen="none")
            par["nm"] = key
            note(dict(o, key=key, par=par), ok, err)
        elif op == "trip":
            if o["id"] not in cfgs:
                continue
            c = cfgs[o["id"]]
            t = see(o["id"], c)["type"]
            sp = getattr(c, "_spectra_name", "")
            files = []

            def trip():
                k = {}
                if arg(o["asked"]) is not None:
                    k["name"] = o["asked"]
                b = {} if t == "S" else {"basic": o["basic"]}
                if o["via"] == "dict":
                    d = c.dump(**b)
                    a = d if t == "G" else (d, sp) if t == "F" else (d,)
                    return CLS[t].load(*a, **k)
                path = fresh()
                a = (path, arg(o["f1"]))
                if t == "G":
                    a += (arg(o["f2"]),)
                c.dump_to_file(*a, **b)
                files.extend(sorted(os.listdir(path)))
                if t == "G":
                    first = [f for f in files if open(path + f).read()
                             .startswith("global_fit_parameters")]
                    rest = [f for f in files if f not in first]
                    a = (path + first[0], path + rest[0])
                elif t == "F":
                    a = (path + files[0], sp)
                else:
                    a = (path + files[0],)
                return CLS[t].load_from_file(*a, **k)
            ok, v, err = attempt(trip)
            if ok:
                cfgs[o["to"]] = v
            note(dict(o, basic=o["basic"] and t != "S"), ok, err, files=files)
        elif op == "load":
            t = o["type"]
            one = [o["broken"] == "field"]
            paths = []
            if o["via"] == "shipped":
                ok, v, err = attempt(shipped, o)
                if not ok:      # not there, or not as this understands it
                    continue
                paths, glob, flat = v
                o = dict(o, glob=glob, flat=flat)

            def flds(p):
                b, one[0] = one[0], False
                return fields(p, b)
            g = OrderedDict((s["dim"], OrderedDict(
                (x["short"], flds(x["par"])) for x in s["items"]))
                for s in o["glob"])
            f = OrderedDict((x["short"], flds(x["par"])) for x in o["flat"])
            gd = OrderedDict([("global_fit_parameters", g)])
            fd = OrderedDict([("parameters" if t == "S" else
                               "spectral_fit_parameters", f)])
            if o["broken"] == "section":
                if t == "G" and o.get("cut"):
                    gd = OrderedDict([("globals", g)])
                else:
                    fd = OrderedDict([("pars", f)])

            def load():
                k = {}
                if arg(o["asked"]) is not None:
                    k["name"] = o["asked"]
                if o["via"] == "dict":
                    a = (gd, fd) if t == "G" else (fd, o["sp"]) \
                        if t == "F" else (fd,)
                    return CLS[t].load(*a, **k)
                if paths:
                    return CLS[t].load_from_file(
                        *(tuple(paths) + ((o["sp"],) if t == "F" else ())),
                        **k)
                path = fresh()
                with open(path + "one.yml", "w") as h:
                    h.write(ytext(gd if t == "G" else fd))
                a = (path + "one.yml",)
                if t == "G":
                    with open(path + "two.yml", "w") as h:
                        h.write(ytext(fd))
                    a += (path + "two.yml",)
                elif t == "F":
                    a += (o["sp"],)
                return CLS[t].load_from_file(*a, **k)
            ok, v, err = attempt(load)
            if ok:
                cfgs[o["to"]] = v
            note(dict(o, f1=o["one"] if paths else "one.yml",
                      via="yaml" if paths else o["via"]), ok, err)
    shutil.rmtree(base, ignore_errors=True)
