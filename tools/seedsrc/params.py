MK = '''
from collections import OrderedDict
import copy, io, os, tempfile
import numpy
from echidna.core.config import (SpectraConfig, GlobalFitConfig,
                                 SpectraFitConfig)
from echidna.core import parameter as P


def rejected(f, *a, **k):
    try:
        f(*a, **k)
        return False
    except Exception:
        return True

'''
F = "echidna/core/parameter.py"
C = "echidna/core/config.py"
SEEDS = [
 dict(id="C07-stale-grid", property="C07",
  needs="the prior of a logscale_deviation parameter changed after its values were first asked for",
  breaks="set_par(prior=...) keeps the old grid, so values, index and prior no longer agree",
  edits=[(F, """        self._values = None
        self._bin_boundaries = None
        for kw in kwargs:
""", """        if set(kwargs) - set(["prior", "sigma", "dimension"]):
            self._values = None
            self._bin_boundaries = None
        for kw in kwargs:
""")],
  demo=MK + '''
p = P.RateParameter("rate", 10., None, 5., 25., 7, logscale_deviation=True)
assert 10. in p.get_values()
p.set_par(prior=15.)
assert numpy.isclose(p.get_values(), 15.).any(), p.get_values()
q = P.RateParameter("rate", 10., None, 5., 25., 5)
q.get_values()
q.set_par(high=45.)
assert q.get_values()[-1] == 45.
'''),
 dict(id="C07-close-values", property="C07",
  needs="a grid whose neighbouring values differ by less than one part in 1e5",
  breaks="get_value_index returns the index of an earlier, merely similar value",
  edits=[(F, """        indices = numpy.where(self.get_values() == value)[0]
""", """        indices = numpy.where(numpy.isclose(self.get_values(), value))[0]
""")],
  demo=MK + '''
p = P.RateParameter("rate", 1000., None, 1000., 1000.01, 11)
for i in range(11):
    assert p.get_value_index(p.get_value_at(i)) == i, i
assert rejected(p.get_value_index, 999.)
'''),
 dict(id="C08-last-bin", property="C08",
  needs="the bin number one past the end",
  breaks="get_bin_centre answers for a bin that does not exist",
  edits=[(F, """        if bin > self._bins - 1:
""", """        if bin > self._bins:
""")],
  demo=MK + '''
p = P.SpectraParameter("energy_mc", 1., 9., 8)
assert p.get_bin_centre(7) == 8.5 and p.get_bin_centre(0) == 1.5
assert rejected(p.get_bin_centre, 8)
assert rejected(p.get_bin_centre, -1)
'''),
 dict(id="C07-one-bad-value", property="C07",
  needs="a rate with exactly one negative value in its grid",
  breaks="checking a grid reports values that are not allowed only if there are several",
  edits=[(F, "        if len(bad_indices) != 0:\n", "        if len(bad_indices) > 1:\n")],
  demo=MK + '''
import warnings


def told(low):
    p = P.RateParameter("rate", 5., 1., low, 10., 11)
    p._prior = float(p.get_values()[3])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p.check_values()
    return len(w)


assert told(0.) == 0
assert told(-8.) == 1
assert told(-0.5) == 1, told(-0.5)
'''),
 dict(id="C08-edges-arange", property="C08",
  needs="an axis whose bin width is not exact in binary, such as 0.5 to 1.2 in 7 bins",
  breaks="the bin edges are stepped along up to and including the upper edge, so that rounding adds one edge too many on some axes",
  edits=[(F, """        return numpy.linspace(self._low, self._high, self._bins+1)

    def get_bin_centre(self, bin):""", """        width = self.get_width()
        return numpy.arange(self._low, self._high + width, width)

    def get_bin_centre(self, bin):""")],
  demo=MK + '''
p = P.SpectraParameter("energy_mc", 1., 9., 8)
assert len(p.get_bin_boundaries()) == 9
for lo, hi, b in [(0.5, 1.2, 7), (0., 2.1, 7), (0., 0.3, 3), (1., 1.3, 3)]:
    p = P.SpectraParameter("energy_mc", lo, hi, b)
    e = p.get_bin_boundaries()
    assert len(e) == b + 1, (lo, hi, b, len(e))
'''),
 dict(id="C08-below-edge", property="C08",
  needs="a value below the axis by less than one bin",
  breaks="get_bin puts a value just below the lower edge in bin 0",
  edits=[(F, """        if x < self._low:
            raise ValueError("%s is below""", """        if x + self.get_width() <= self._low:
            raise ValueError("%s is below""")],
  demo=MK + '''
p = P.SpectraParameter("energy_mc", 1., 9., 8)
assert p.get_bin(1.) == 0 and p.get_bin(8.5) == 7
assert rejected(p.get_bin, 0.9) and rejected(p.get_bin, -4.)
assert rejected(p.get_bin, 9.5)
'''),
 dict(id="C09-order", property="C09",
  needs="axes that are not in alphabetical order",
  breaks="loading a configuration sorts its axes",
  edits=[(C, """        for parameter in config[main_key]:
            parameters[parameter] = SpectraParameter(
""", """        for parameter in sorted(config[main_key]):
            parameters[parameter] = SpectraParameter(
""")],
  demo=MK + '''
d = OrderedDict()
for n in ("radial_mc", "energy_mc"):
    d[n] = {"low": 0., "high": 4., "bins": 4}
c = SpectraConfig.load({"parameters": d})
assert list(c.get_pars()) == ["radial_mc", "energy_mc"]
assert list(SpectraConfig.load(c.dump()).get_pars()) == list(c.get_pars())
'''),
 dict(id="C09-yaml-order", property="C09",
  needs="a dump to file followed by a load, with parameters out of alphabetical order",
  breaks="the written .yml file is sorted, so the read back parameters change places",
  edits=[("echidna/util/yaml_loader.py", """            data.items())
""", """            dict(data))
""")],
  demo=MK + '''
d = OrderedDict()
for n in ("radial_mc", "energy_mc"):
    d[n] = {"low": 0., "high": 4., "bins": 4}
c = SpectraConfig.load({"parameters": d})
t = tempfile.mkdtemp()
try:
    c.dump_to_file(path=t + "/", filename="x")
    b = SpectraConfig.load_from_file(t + "/x.yml")
    assert list(b.get_pars()) == ["radial_mc", "energy_mc"], b.get_pars()
finally:
    import shutil
    shutil.rmtree(t)
'''),
 dict(id="C25-first-wins", property="C25",
  needs="a parameter added under a name that is already taken",
  breaks="adding a parameter again keeps the old one instead of replacing it",
  edits=[(C, """        self._parameters[par._name] = {'par': par, 'type': par_type}
""", """        self._parameters.setdefault(par._name,
                                    {'par': par, 'type': par_type})
""")],
  demo=MK + '''
c = GlobalFitConfig("c", OrderedDict())
a = P.RateParameter("x_rate", 1., None, 0., 2., 3)
b = P.RateParameter("x_rate", 5., None, 4., 6., 3)
c.add_par(a, "spectra")
c.add_par(b, "spectra")
assert c.get_par("x_rate") is b
assert c.get_spectra_pars() == [b] and not c.get_global_pars()
'''),
 dict(id="C25-index-suffix", property="C25",
  needs="a parameter whose name ends with the name of a later one",
  breaks="get_index returns the position of another parameter",
  edits=[(C, """            if p == parameter:
                return i
""", """            if p.endswith(parameter):
                return i
""")],
  demo=MK + '''
c = GlobalFitConfig("c", OrderedDict())
for n in ("Big_A_rate", "A_rate"):
    c.add_par(P.RateParameter(n, 1., None, 0., 2., 3), "spectra")
assert c.get_index("A_rate") == 1
assert c.get_index("Big_A_rate") == 0
assert rejected(c.get_index, "missing")
'''),
 dict(id="C21-ten", property="C21",
  needs="a resolution parameter whose current value is exactly 10",
  breaks="the pre-convolved file asked for is a light-yield one, although resolution 10 is applied as an energy resolution",
  edits=[(F, """        if self._current_value > 10.:
            ext = 'ly'
""", """        if self._current_value >= 10.:
            ext = 'ly'
""")],
  demo=MK + '''
p = P.ResolutionParameter("energy_mc_resolution", 10., None, 8., 12., 3,
                          "energy_mc")
for v, e in ((10., "rs"), (9.5, "rs"), (12.5, "ly")):
    p.set_current_value(v)
    d, f = p.get_pre_convolved("/x/energy_mc/", "bg.hdf5")
    assert f.endswith(e + ".hdf5"), (v, f)
'''),
 dict(id="C21-kept-decays", property="C21",
  needs="pre-made spectra stored with another number of decays than the spectrum they stand for has now",
  breaks="a pre-made spectrum enters the fit with the decays it was stored with",
  edits=[("echidna/fit/fit.py", """        spectrum.scale(num_decays)
        spectrum._fit_config = fit_config
        return spectrum
""", """        if orig_num_decays:
            spectrum.scale(num_decays)
        spectrum._fit_config = fit_config
        return spectrum
""")],
  demo=MK + '''
from echidna.fit import fit
import echidna.output.store as store
seen = []


class Spec(object):
    _location = "/data/bg.hdf5"
    _num_decays = 1.
    _fit_config = None

    def scale(self, x):
        self._num_decays = x


def load(path):
    seen.append(path)
    s = Spec()
    s._num_decays = 7.
    return s


fit.store.load = load
p = P.ScaleParameter("energy_reco_scale", 1., None, 0.5, 1.5, 3,
                     "energy_reco")
p.set_current_value(1.5)
f = fit.Fit.__new__(fit.Fit)
f._pre_made_base_dir = None
s = f.load_pre_made(Spec(), [p])
assert seen == ["/data/energy_reco/scale/bg_1.5sc.hdf5"], seen
assert s._num_decays == 1., s._num_decays
''', shims=["scipy", "site/h5py.py"]),
]
