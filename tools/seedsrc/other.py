# seeds: files, decays, events, scripts
ST = "echidna/output/store.py"
DE = "echidna/calc/decay.py"
FI = "echidna/core/fill_spectrum.py"
SC = "echidna/scripts/"
H5 = ["scipy", "site/h5py.py"]
EV = ["scipy", "site/h5py.py", "site/ROOT.py", "site/rat.py"]

MK = '''
from collections import OrderedDict
import copy, io, json, os, shutil, tempfile
import numpy
from echidna.core.config import (SpectraConfig, GlobalFitConfig,
                                 SpectraFitConfig)
from echidna.core import spectra
from echidna.core import parameter as P
from echidna.output import store
TMP = tempfile.mkdtemp()


def quiet(f, *a, **k):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return f(*a, **k)
    finally:
        sys.stdout = old


def conf(**axes):
    d = OrderedDict()
    for n in sorted(axes):
        lo, hi, b = axes[n]
        d[n] = {"low": lo, "high": hi, "bins": b}
    return SpectraConfig.load({"parameters": d})


def make(name, data, lo=0., hi=None, dec=None):
    data = numpy.array(data, dtype=float)
    s = spectra.Spectra(name, data.sum() if dec is None else dec,
                        conf(energy_mc=(lo, lo + len(data) if hi is None else hi,
                                        len(data))),
                        background_name=name)
    s._data = data
    return s


def script(name, *args):
    """python SCRIPT ARGS in TMP"""
    import hook
    path = os.path.join(hook.REPO, "echidna", "scripts", name + ".py")
    code = hook._translate(open(path).read(), path)
    old = sys.argv, sys.stdout, sys.stderr
    from echidna import utilities
    utilities.logger_set = True
    here = os.getcwd()
    os.chdir(TMP)
    sys.argv = [path] + list(args)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        exec(compile(code, path, "exec"), {"__name__": "__main__",
                                           "__file__": path})
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        os.chdir(here)
'''
END = '''
shutil.rmtree(TMP)
'''

SEEDS = [
 dict(id="C16-overwrite-all", property="C16", shims=H5,
  needs="overwriting the spectrum of a file that also holds fit results",
  breaks="everything in the file is removed, not only the spectrum",
  edits=[(ST, """            del file_[group_name]
""", """            for name in list(file_.keys()):
                del file_[name]
""")],
  demo=MK + '''
from echidna.fit.minimise import GridSearch
c = GlobalFitConfig("c", OrderedDict())
c.add_par(P.RateParameter("a_rate", 1., None, 0., 4., 5), "spectra")
s = make("s", [1., 2., 3.])
f = TMP + "/x.hdf5"
store.dump(f, s)
store.dump_fit_results(f, GridSearch(c, s.get_config(), name="r"), append=True)
s._data[1] = 7.
store.dump(f, s, append=True, overwrite=True)
assert (store.load(f)._data == [1., 7., 3.]).all()
assert store.load_fit_results(f).get_name() == "r"
''' + END),
 dict(id="C16-single-precision", property="C16", shims=H5,
  needs="bin contents with more than seven significant digits",
  breaks="contents are stored in single precision",
  edits=[(ST, """        group.create_dataset("data", data=spectrum._data, compression="gzip")
""", """        group.create_dataset("data", compression="gzip",
                             data=spectrum._data.astype("float32"))
""")],
  demo=MK + '''
f = TMP + "/x.hdf5"
s = make("s", [16777217., 0.1, 3.])
store.dump(f, s)
assert (store.load(f)._data == s._data).all(), store.load(f)._data
''' + END),
 dict(id="C16-empty-style", property="C16", shims=H5,
  needs="a spectrum whose style or regions of interest were emptied",
  breaks="an empty style comes back as the default one",
  edits=[(ST, """            if len(style_dict) > 0:
                spec._style = json.loads(
""", """            if len(style_dict) > len("{}"):
                spec._style = json.loads(
""")],
  demo=MK + '''
f = TMP + "/x.hdf5"
s = make("s", [1., 2.])
s.set_style({})
store.dump(f, s)
assert store.load(f).get_style() == {}, store.load(f).get_style()
''' + END),
 dict(id="C17-zero-best-fit", property="C17", shims=H5,
  needs="limit results in which one of the best fits is exactly zero",
  breaks="best fits are only stored when none of them is zero",
  edits=[(ST, """        if limit_results._best_fits.any():
""", """        if limit_results._best_fits.all():
""")],
  demo=MK + '''
from echidna.fit.fit_results import LimitResults
c = GlobalFitConfig("c", OrderedDict())
c.add_par(P.RateParameter("a_rate", 1., None, 0., 4., 5), "spectra")
r = OrderedDict([("rate", P.RateParameter("rate", 1., None, 0., 2., 3))])
s = make("s", [1., 2., 3.])
l = LimitResults(c, s.get_config(), SpectraFitConfig("l", r, "s"), "lim")
for i, v in enumerate((0., 1., 3.)):
    l.set_best_fit(i, v, "a_rate")
f = TMP + "/l.hdf5"
store.dump_limit_results(f, l)
m = store.load_limit_results(f)
assert [m.get_best_fit(i, "a_rate") for i in range(3)] == [0., 1., 3.]
''' + END),
 dict(id="C17-zero-attribute", property="C17", shims=H5,
  needs="an object with a zero or an empty text, loaded onto one with another value",
  breaks="attributes that are zero or empty are skipped when saving",
  edits=[(ST, """            if attribute is None:  # Can't save to hdf5, skip --> continue
""", """            if type(attribute).__name__ != "ndarray" and not attribute:
""")],
  demo=MK + '''
sys.getsizeof = lambda o: 64     # PyPy has none


class Thing(object):
    pass


a, b = Thing(), Thing()
a.n, a.t, a.x = 0, "", numpy.zeros(2)
b.n, b.t, b.x = 5, "old", numpy.ones(3)
f = TMP + "/n.hdf5"
store.dump_ndarray(f, a)
store.load_ndarray(f, b)
assert b.n == 0 and b.t == "" and (b.x == [0., 0.]).all()
''' + END),
 dict(id="C22-livetime", property="C22", shims=["scipy", "echidna"],
  needs="effective masses converted to counts for a livetime other than five years",
  breaks="the livetime is checked but not used",
  edits=[(DE, """        half_life = self.eff_mass_to_half_life(eff_mass)
        return self.half_life_to_counts(half_life, n_atoms, livetime)
""", """        half_life = self.eff_mass_to_half_life(eff_mass)
        return self.half_life_to_counts(half_life, n_atoms)
""")],
  demo='''
from echidna.calc import decay
c = decay.DBIsotope("Te", 129.9, 127.6, 0.34, 3.69e-14, 4.03)
m = c.half_life_to_eff_mass(1e26)
a = c.eff_mass_to_counts(m, livetime=1.)
b = c.half_life_to_counts(1e26, livetime=1.)
assert abs(a / b - 1) < 1e-9, (a, b)
'''),
 dict(id="C22-density", property="C22", shims=["scipy", "echidna"],
  needs="a scintillator density given to the call together with a radius",
  breaks="the density of the isotope is used whenever a radius is given to the call",
  edits=[(DE, """                scint_mass = scint_density * volume
""", """                if outer_radius != self._outer_radius:
                    scint_density = self._scint_density
                scint_mass = scint_density * volume
""")],
  demo='''
from echidna.calc import decay
c = decay.DBIsotope("Te", 129.9, 127.6, 0.34, 3.69e-14, 4.03)
a = c.get_n_atoms(scint_density=1e-6, outer_radius=2000.)
b = c.get_n_atoms(scint_density=2e-6, outer_radius=2000.)
assert abs(b / a - 2) < 1e-9, (a, b)
'''),
 dict(id="C23-bipo-no-trigger", property="C23", shims=EV,
  needs="the BiPo cut on a true-only spectrum and entries without any trigger",
  breaks="entries without triggers pass the BiPo cut",
  edits=[(FI, """        fill_kwargs = {}
        if bipo and ds.GetEVCount() != 1:
            # Only bipos with 1 ev survive bipo cut
            continue
        for var, extractor in extractors.iteritems():
            if extractor.get_valid_root(mc, ds):
                fill_kwargs[extractor._name] = extractor.get_value_root(mc)
""", """        fill_kwargs = {}
        if bipo and ds.GetEVCount() > 1:
            # Only bipos with 1 ev survive bipo cut
            continue
        for var, extractor in extractors.iteritems():
            if extractor.get_valid_root(mc, ds):
                fill_kwargs[extractor._name] = extractor.get_value_root(mc)
""")],
  demo=MK + '''
from echidna.core import fill_spectrum


class Reader(object):
    def __init__(self, name):
        pass

    def GetEntryCount(self):
        return 3

    def GetEntry(self, i):
        return Entry(i)


class Entry(object):
    """An entry with n triggers; it is its own mc."""
    def __init__(self, n):
        self.n = n

    def GetMC(self):
        return self

    def GetEVCount(self):
        return self.n

    def GetEV(self, i):
        return None

    def GetMCParticleCount(self):
        return 1

    def GetScintQuenchedEnergyDeposit(self):
        return self.n + 0.5


fill_spectrum.RAT.DU.DSReader = Reader
s = quiet(fill_spectrum.fill_from_root, "x.root", "s",
          conf(energy_mc=(0., 3., 3)), bipo=True)
assert s._data.tolist() == [0., 1., 0.], s._data
''' + END),
 dict(id="C23-bipo-next-row", property="C23", shims=EV,
  needs="a single trigger followed by an entry without triggers in an ntuple read with the BiPo cut",
  breaks="single triggers are lost when the next entry has no trigger",
  edits=[(FI, """        if check_next and entry.evIndex < 1:
""", """        if check_next and entry.evIndex == 0:
""")],
  demo=MK + '''
from echidna.core import fill_spectrum
rows = [dict(mc=1, evIndex=i, scintFit=1, energy=1.5 + k, mcEdepQuenched=1.5 + k,
             mcEdep=1.5, posx=0., posy=0., posz=0., mcPosx=0., mcPosy=0.,
             mcPosz=0.) for k, i in enumerate((0, -1, 0, 0, 1, 0))]


class Chain(object):
    def __init__(self, name):
        pass

    def Add(self, name):
        pass

    def GetEntries(self):
        return len(rows)

    def __iter__(self):
        for r in rows:
            self.__dict__.update(r)
            yield self


fill_spectrum.TChain = Chain
s = quiet(fill_spectrum.fill_from_ntuple, "x", "s",
          conf(energy_mc=(1., 7., 6)), bipo=True)
assert s._data.tolist() == [1., 0., 1., 0., 0., 1.], s._data
''' + END),
 dict(id="C26-six-digits", property="C26", shims=H5,
  needs="a scale factor with more than six digits",
  breaks="files scaled by different factors get one name",
  edits=[(SC + "dump_scaled.py", """    str_sc = str(args.scale)
""", """    str_sc = "%g" % args.scale
""")],
  demo=MK + '''
store.dump(TMP + "/a.hdf5", make("a", [1., 2., 3., 4.], lo=1.))
for v in ("1.0000001", "1.0000002"):
    script("dump_scaled", "-p", "energy_mc", "-s", v, "-f", "a.hdf5")
assert sorted(os.listdir(TMP)) == ["a.hdf5", "a_1.0000001sc.hdf5",
                                   "a_1.0000002sc.hdf5"], os.listdir(TMP)
''' + END),
 dict(id="C26-zero-upper", property="C26", shims=H5,
  needs="an upper bound of zero together with lower bounds",
  breaks="upper bounds of zero are left out",
  edits=[(SC + "dump_shrink.py", """            shrink[par_low] = args.low[i]
            shrink[par_high] = args.up[i]
""", """            shrink[par_low] = args.low[i]
            if args.up[i]:
                shrink[par_high] = args.up[i]
""")],
  demo=MK + '''
store.dump(TMP + "/a.hdf5", make("a", [1., 2., 3., 4.], lo=-2., hi=2.))
script("dump_shrink", "-i", "a.hdf5", "-p", "energy_mc", "-l", "-1", "-u", "0")
assert store.load(TMP + "/a_shrunk.hdf5")._data.tolist() == [2.]
''' + END),
 dict(id="C26-dots", property="C26", shims=H5,
  needs="a dot in the name of the input other than that of its ending",
  breaks="the saved file is named after the part of the name before its first dot",
  edits=[(SC + "rebin.py", """    filename = args.input[args.input.rfind("/")+1:args.input.rfind(".")]
""", """    filename = args.input[args.input.rfind("/")+1:].split(".")[0]
""")],
  demo=MK + '''
store.dump(TMP + "/a.v2.hdf5", make("a", [1., 2., 3., 4.]))
script("rebin", "-i", "a.v2.hdf5", "-b", "2")
assert sorted(os.listdir(TMP)) == ["a.v2.hdf5", "a.v2_rebin.hdf5"]
''' + END),
 dict(id="C26-combine-twice", property="C26", shims=H5,
  needs="the same file given twice to combine_hdf5",
  breaks="a file given more than once is only added once",
  edits=[(SC + "combine_hdf5.py", """    first = True
    for hdf5 in args.files:
""", """    first = True
    for hdf5 in sorted(set(args.files), key=args.files.index):
""")],
  demo=MK + '''
for n in "ab":
    store.dump(TMP + "/%s.hdf5" % n, make(n, [1., 2., 3.]))
script("combine_hdf5", "-f", "a.hdf5", "b.hdf5", "a.hdf5")
assert store.load(TMP + "/combined.hdf5")._data.tolist() == [3., 6., 9.]
''' + END),
]
