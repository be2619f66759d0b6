MK = '''
from collections import OrderedDict
import copy, io
import numpy
from echidna.core.config import SpectraConfig
from echidna.core import spectra


def quiet(f, *a, **k):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return f(*a, **k)
    finally:
        sys.stdout = old


def make(axes, dec=10.):
    d = OrderedDict()
    for n, lo, hi, b in axes:
        d[n] = {"low": lo, "high": hi, "bins": b}
    return spectra.Spectra("t_mc", dec, SpectraConfig.load({"parameters": d}))


def rejected(f, *a, **k):
    try:
        quiet(f, *a, **k)
        return False
    except Exception:
        return True

'''
S = "echidna/core/spectra.py"
SEEDS = [
 dict(id="C01-upper-edge", property="C01",
  needs="a fill exactly at (only) the upper edge of an axis",
  breaks="values equal to the upper edge are counted in the last bin instead of being rejected",
  edits=[(S, """            if not self._config.get_par(v)._low <= kwargs[v] < \\
                    self._config.get_par(v)._high:
""", """            if not self._config.get_par(v)._low <= kwargs[v] <= \\
                    self._config.get_par(v)._high:
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8), ("radial_mc", 0., 4., 4)])
assert rejected(s.fill, energy_mc=8., radial_mc=1.)
assert rejected(s.fill, energy_mc=1., radial_mc=4.)
assert s.sum() == 0.
s.fill(energy_mc=7.5, radial_mc=3.5)
assert s.get_data()[7, 3] == 1. and s.sum() == 1.
'''),
 dict(id="C01-below-range", property="C01",
  needs="a value below the lower edge by less than one bin width",
  breaks="values slightly below the range of an axis end up in its first bin",
  edits=[(S, """            if not self._config.get_par(v)._low <= kwargs[v] < \\
                    self._config.get_par(v)._high:
                raise""", """            par = self._config.get_par(v)
            if not -1. < (kwargs[v] - par._low) / par.get_width() < par._bins:
                raise""")],
  demo=MK + '''
s = make([("energy_mc", 1., 9., 8)])
assert rejected(s.fill, energy_mc=0.6)
assert rejected(s.fill, energy_mc=-3.) and rejected(s.fill, energy_mc=9.)
assert s.sum() == 0.
s.fill(energy_mc=1.)
assert s.get_data()[0] == 1.
'''),
 dict(id="C01-partial-reject", property="C01",
  needs="a fill with an extra, unknown parameter",
  breaks="the weight is added although the fill names an unknown dimension",
  edits=[(S, """            if par not in self._config.get_pars():
                raise Exception('Unknown parameter %s' % par)
        for par in self._config.get_pars():
            if par not in kwargs:
""", """            if self._config.get_dim(par) not in self._config.get_dims():
                raise Exception('Unknown parameter %s' % par)
        for par in self._config.get_pars():
            if par not in kwargs:
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8)])
assert rejected(s.fill, energy_mc=1., radial_mc=4.)
assert rejected(s.fill, energy_mc=1., energy_reco=4.)
assert s.sum() == 0.
'''),
 dict(id="C02-roi-bounds", property="C02",
  needs="a region of interest whose bounds are not on bin edges",
  breaks="the recorded region of interest no longer agrees with the bins kept",
  edits=[(S, """        self._rois[dimension] = {"low": par._low,
                                 "high": par._high,
""", """        self._rois[dimension] = {"low": max(par._low, lower_limit),
                                 "high": min(par._high, upper_limit),
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8)])
for i in range(8):
    s.fill(energy_mc=i + 0.5, weight=i + 1.)
quiet(s.shrink_to_roi, 2.5, 5.25, "energy_mc")
r = s.get_roi("energy_mc")
assert (r["low"], r["high"]) == (2., 6.), r
assert abs(r["efficiency"] - 18. / 36.) < 1e-12
'''),
 dict(id="C02-other-axis", property="C02",
  needs="a cut on one axis of a spectrum in which another axis name is a prefix of it",
  breaks="the bounds given for one axis are also applied to another whose name it starts with",
  edits=[(S, """            if "%s_low" % par_name not in kwargs:
                kwargs[kw_low] = par._low
            if "%s_high" % par_name not in kwargs:
                kwargs[kw_high] = par._high
""", """            if not [kw for kw in kwargs if kw.startswith(par_name)]:
                kwargs[kw_low] = par._low
                kwargs[kw_high] = par._high
            kwargs.setdefault(kw_low, par._low)
            kwargs.setdefault(kw_high, max(par._low, min(
                [par._high] + [kwargs[kw] for kw in sorted(kwargs)
                               if kw.startswith(par_name) and
                               kw.endswith("_high")])))
""")],
  demo=MK + '''
s = make([("radial_mc", 0., 8., 8), ("radial_mc3_mc", 0., 4., 4)])
for i in range(8):
    s.fill(radial_mc=i + 0.5, radial_mc3_mc=1.5)
quiet(s.shrink, radial_mc3_mc_low=1., radial_mc3_mc_high=3., radial_mc_low=1.)
assert s.get_data().shape == (7, 2), s.get_data().shape
assert s.sum() == 7.
'''),
 dict(id="C03-interleaved", property="C03",
  needs="content that differs between the merged bins (totals and shapes stay right)",
  breaks="rebinning adds bins that are a stride apart instead of neighbours",
  edits=[(S, """        compression_pairs = [(d, c//d) for d, c in zip(new_bins,
""", """        compression_pairs = [(c//d, d) for d, c in zip(new_bins,
"""), (S, """        for i in range(len(new_bins)):
            self._data = self._data.sum(-1*(i+1))
""", """        for i in range(len(new_bins)):
            self._data = self._data.sum(i)
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 4., 4), ("radial_mc", 0., 4., 4)])
for i in range(4):
    for j in range(4):
        s.fill(energy_mc=i + .5, radial_mc=j + .5, weight=4. * i + j)
s.rebin([2, 4])
assert s.get_data().tolist() == [[4., 6., 8., 10.], [20., 22., 24., 26.]]
'''),
 dict(id="C03-long-request", property="C03",
  needs="a request with one number too many, the last of them 1",
  breaks="requests for more dimensions than the spectrum has are not refused "
         "and sum away one axis too many",
  edits=[(S, """        if len(new_bins) != len(self._config.get_pars()):
""", """        if len(new_bins) < len(self._config.get_pars()):
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 4., 4), ("radial_mc", 0., 4., 2)])
s.fill(energy_mc=1., radial_mc=1.)
assert rejected(s.rebin, [2, 2, 1])
assert rejected(s.rebin, [2])
assert s.get_config().get_shape() == (4, 2) == s.get_data().shape
s.rebin([2, 1])
assert s.get_config().get_shape() == (2, 1) == s.get_data().shape
'''),
 dict(id="C04-alias", property="C04",
  needs="a projection on all axes whose result is modified afterwards",
  breaks="the projection on all axes is the spectrum's own array",
  edits=[(S, """        if len(axes) == len(self._config.get_pars()):
            return copy.copy(self._data)
""", """        if len(axes) == len(self._config.get_pars()):
            return self._data
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 4., 4), ("radial_mc", 0., 4., 2)])
s.fill(energy_mc=1.5, radial_mc=1.)
p = s.nd_project(["energy_mc", "radial_mc"])
p *= 0.
assert s.sum() == 1.
p = s.nd_project(["energy_mc"])
assert p.tolist() == [0., 1., 0., 0.]
'''),
 dict(id="C04-four-dim", property="C04",
  needs="a one-dimensional projection of a spectrum with at least four axes",
  breaks="project sums the wrong axes beyond three dimensions",
  edits=[(S, """            if axis < i_axis+1:
                projection = projection.sum(1)
            else:
                projection = projection.sum(0)
""", """            if axis < i_axis+1 or i_axis > 1:
                projection = projection.sum(1)
            else:
                projection = projection.sum(0)
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 2., 2), ("radial_mc", 0., 2., 2),
          ("x_mc", 0., 2., 2), ("y_mc", 0., 3., 3)])
s.fill(energy_mc=.5, radial_mc=1.5, x_mc=.5, y_mc=2.5, weight=3.)
s.fill(energy_mc=.5, radial_mc=1.5, x_mc=1.5, y_mc=.5, weight=2.)
s.fill(energy_mc=.5, radial_mc=.5, x_mc=1.5, y_mc=.5, weight=1.)
assert s.project("energy_mc").tolist() == [6., 0.]
assert s.project("radial_mc").tolist() == [1., 5.]
assert s.project("x_mc").tolist() == [3., 3.]
assert s.project("y_mc").tolist() == [3., 0., 3.]
'''),
 dict(id="C05-cut-to-zero", property="C05",
  needs="a cut that removes all counts of the spectrum",
  breaks="the number of decays stays unchanged when a cut leaves no counts",
  edits=[(S, """        reduction_factor = float(new_count) / float(initial_count)
""", """        reduction_factor = float(new_count or initial_count) / initial_count
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 4., 4)], 8.)
s.fill(energy_mc=1.5)
s.fill(energy_mc=2.5)
quiet(s.cut, energy_mc_low=2.)
assert s.get_num_decays() == 4.
quiet(s.cut, energy_mc_low=3.)
assert s.get_num_decays() == 0. and s.sum() == 0.
'''),
 dict(id="C05-rejected-add", property="C05",
  needs="adding a spectrum whose shape agrees but whose bounds do not",
  breaks="an addition that is rejected has already added the raw events",
  edits=[(S, """        types = {}  # Save reco/mc/truth type of dimensions
""" if False else """        # Check contents of configs with the same dimensions but different type
""" if False else """        self._data += spectrum._data
        self._raw_events += spectrum._raw_events
        self._num_decays += spectrum._num_decays
""", """        self._data += spectrum._data
        self._num_decays += spectrum._num_decays
"""), (S, """        for v in spectrum.get_config().get_dims():
            if v not in self._config.get_dims():
                raise IndexError("%s not present in this spectrum" % v)
""", """        for v in spectrum.get_config().get_dims():
            if v not in self._config.get_dims():
                raise IndexError("%s not present in this spectrum" % v)
        self._raw_events += spectrum._raw_events
""")],
  demo=MK + '''
a = make([("energy_mc", 0., 4., 4)])
b = make([("energy_mc", 1., 5., 4)])
c = make([("energy_mc", 0., 4., 4)])
a._raw_events, b._raw_events, c._raw_events = 3, 5, 7
assert rejected(a.add, b)
assert a._raw_events == 3
a.add(c)
assert a._raw_events == 10 and a.get_num_decays() == 20.
'''),
 dict(id="C05-scale-chain", property="C05",
  needs="scaling twice with a shrink in between",
  breaks="after a shrink, scaling uses the counts left instead of the number of decays",
  edits=[(S, """        self._data = numpy.multiply(self._data, num_decays / self._num_decays)
""", """        norm = self._num_decays
        if self.sum() < norm and self._rois:
            norm = self.sum() or norm
        self._data = numpy.multiply(self._data, num_decays / norm)
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 4., 4)], 4.)
for i in range(4):
    s.fill(energy_mc=i + .5)
s.scale(8.)
assert s.sum() == 8.
quiet(s.shrink_to_roi, 1., 3., "energy_mc")
s.scale(16.)
assert s.sum() == 8. and s.get_num_decays() == 16.
'''),
 dict(id="C06-shift-config", property="C06",
  needs="cutting or rebinning a spectrum shifted by whole bins (or its source), then using the other",
  breaks="a spectrum shifted by whole bins shares its binning and ROIs with its source",
  edits=[("echidna/core/shift.py", """        shifted_spec = copy.copy(spectrum)
        shifted_spec._name = spectrum._name + "_shift" + str(shift)
        shifted_spec._data = numpy.zeros(spectrum._data.shape)
        n_dim = len(spectrum._data.shape)
        axis = spectrum.get_config().get_index(dimension)
        low = spectrum""", """        # the data is replaced below, so don't copy it
        shifted_spec = spectrum.__class__.__new__(spectrum.__class__)
        shifted_spec.__dict__.update(spectrum.__dict__)
        shifted_spec._name = spectrum._name + "_shift" + str(shift)
        shifted_spec._data = numpy.zeros(spectrum._data.shape)
        n_dim = len(spectrum._data.shape)
        axis = spectrum.get_config().get_index(dimension)
        low = spectrum""")],
  demo=MK + '''
from echidna.core.shift import Shift
s = make([("energy_mc", 0., 8., 8)])
s.fill(energy_mc=2.5)
sh = Shift()
sh.set_shift(1.)
t = sh.shift(s, "energy_mc")
assert t.get_data().tolist() == [0, 0, 0, 1, 0, 0, 0, 0]
t.rebin([4])
quiet(t.shrink_to_roi, 2., 4., "energy_mc")
assert s.get_config().get_par("energy_mc").get_bins() == 8
assert s.get_config().get_par("energy_mc").get_high() == 8.
assert rejected(s.get_roi, "energy_mc")
'''),
 dict(id="C06-smear-source", property="C06",
  needs="a light-yield weighted smear of a spectrum whose top bin is filled, then looking back at the source",
  breaks="weighted smearing normalises the source in place",
  edits=[("echidna/core/scale.py", """        scaled_spec._num_decays = scaled_spec.sum()
        scaled_spec.scale(prescale_sum)
        scaled_spec._num_decays = spectrum._num_decays
""", """        spectrum._num_decays, scaled_spec._num_decays = (
            float(prescale_sum), scaled_spec.sum())
        scaled_spec.scale(prescale_sum)
        scaled_spec._num_decays = spectrum._num_decays
""")],
  demo=MK + '''
from echidna.core.scale import Scale
s = make([("energy_mc", 0., 8., 8)], 20.)
for i in range(8):
    s.fill(energy_mc=i + .5, weight=1. + i)
sc = Scale()
sc.set_scale_factor(1.1)
t = sc.scale(s, "energy_mc", k=1)
assert s.get_num_decays() == 20. and t.get_num_decays() == 20.
t.scale(1.)
assert s.get_num_decays() == 20. and s.sum() == 36.
'''),
]
