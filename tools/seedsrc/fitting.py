MK = '''
from collections import OrderedDict
import copy, io, os, tempfile
import numpy
from echidna.core.config import (SpectraConfig, GlobalFitConfig,
                                 SpectraFitConfig)
from echidna.core import spectra
from echidna.core import parameter as P
from echidna.fit import fit, minimise, fit_results, test_statistic
from echidna.limit import limit


def quiet(f, *a, **k):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return f(*a, **k)
    finally:
        sys.stdout = old


def rejected(f, *a, **k):
    try:
        quiet(f, *a, **k)
        return False
    except Exception:
        return True


def make(name, data, dec=None, lo=0., hi=None, rates=None):
    data = numpy.array(data, dtype=float)
    d = OrderedDict()
    d["energy_mc"] = {"low": lo, "high": hi if hi else lo + len(data),
                      "bins": len(data)}
    c = SpectraConfig.load({"parameters": d})
    fc = None
    if rates:
        pars = OrderedDict()
        prior, sigma, low, high, bins = rates
        pars["rate"] = P.RateParameter("rate", prior, sigma, low, high, bins)
        fc = SpectraFitConfig(name + "_fit", pars, name)
    s = spectra.Spectra(name, data.sum() if dec is None else dec, c,
                        fit_config=fc)
    s._data = data
    return s


def grid(pars, per_bin=False, **k):
    """GridSearch over parameters {name: (low, high, bins, prior, sigma)}."""
    c = GlobalFitConfig("c", OrderedDict())
    for n, (lo, hi, b, pr, sg) in pars.items():
        c.add_par(P.RateParameter(n, pr, sg, lo, hi, b), "spectra")
    d = OrderedDict()
    d["energy_mc"] = {"low": 0., "high": 3., "bins": 3}
    return minimise.GridSearch(c, SpectraConfig.load({"parameters": d}),
                               per_bin=per_bin, **k)


class Stat(object):
    _per_bin = False

    def get_penalty_term(self, v, prior, sigma):
        return ((v - prior) / sigma) ** 2

'''
SH = ["scipy", "site/h5py.py"]
M = "echidna/fit/minimise.py"
F = "echidna/fit/fit.py"
R = "echidna/fit/fit_results.py"
L = "echidna/limit/limit.py"
SEEDS = [
 dict(id="C11-reuse", property="C11", shims=SH,
  needs="neighbouring grid values that differ by less than one part in a thousand",
  breaks="the result of the previous point is reused for a point that is merely close",
  edits=[(M, """        for values, indices in self._get_fit_par_values():
            # Call funct and pass array to it
            result, penalty = funct(*values)
""", """        last = None
        for values, indices in self._get_fit_par_values():
            if last is None or not numpy.allclose(last, values, rtol=1e-3):
                result, penalty = funct(*values)
                last = numpy.array(values)
""")],
  demo=MK + '''
g = grid(OrderedDict([("a", (1000., 1001., 5, 1000., None))]))
seen = []
g.minimise(lambda *v: (seen.append(v) or (v[0] - 1000.5) ** 2, 0.), Stat())
assert len(seen) == 5, seen
assert numpy.allclose(g.get_stats(), [0.25, 0.0625, 0, 0.0625, 0.25])
'''),
 dict(id="C11-stale-penalty", property="C11", shims=SH,
  needs="a second minimisation on the same grid in which some penalty has become zero",
  breaks="zero penalties are not stored, so the previous penalty stays in the cell",
  edits=[(M, """            self.set_penalty_term(penalty, tuple(indices))
""", """            if penalty:
                self.set_penalty_term(penalty, tuple(indices))
""")],
  demo=MK + '''
g = grid(OrderedDict([("a", (0., 4., 5, 2., None)), ("b", (0., 1., 2, 0., None))]))
g.minimise(lambda a, b: (a, 1. + b), Stat())
g.minimise(lambda a, b: (a, 0.), Stat())
assert (g.get_stats() == g.get_raw_stats()).all(), g.get_stats()
'''),
 dict(id="C12-per-bin-raw", property="C12", shims=SH,
  needs="a per-bin fit whose penalties move the minimum",
  breaks="per-bin fits look for the minimum of the raw statistic, without penalties",
  edits=[(M, """        minimum = self.get_stats()

        if self._use_numpy:
""", """        minimum = self.get_raw_stats() if self._per_bin else self.get_stats()
        if self._use_numpy:
""")],
  demo=MK + '''
for per_bin in (False, True):
    g = grid(OrderedDict([("a", (0., 4., 5, 2., None))]), per_bin=per_bin)

    def funct(a):
        r = numpy.ones(3) * (a - 1.) ** 2
        return (r if per_bin else r.sum()), 100. * (a - 3.) ** 2
    g.minimise(funct, Stat())
    assert g.get_fit_config().get_par("a").get_best_fit() == 3.
'''),
 dict(id="C12-three-pars", property="C12", shims=SH,
  needs="find_minimum (use_numpy=False) with three parameters whose grids have different sizes",
  breaks="coordinates of the minimum are taken from the wrong row",
  edits=[(M, """        indices = [i * multiplier + j for i, j in enumerate(new_coords)]
""", """        multiplier = min(multiplier, len(new_coords))
        indices = [i * multiplier + j for i, j in enumerate(new_coords)]
""")],
  demo=MK + '''
rng = numpy.random.RandomState(3)
for shape in ((2, 2, 2), (2, 5, 3), (3, 4, 2), (2, 6, 4)):
    g = grid(OrderedDict((n, (0., 1., b, 0., None))
                         for n, b in zip("abc", shape)), use_numpy=False)
    for _ in range(20):
        a = rng.rand(*shape)
        low, pos = g.find_minimum(a)
        assert low == a.min() and a[tuple(pos)] == low, (shape, pos)
'''),
 dict(id="C13-cache-key", property="C13", shims=SH,
  needs="two global parameter values that agree in their first three digits",
  breaks="the convolved spectrum of another global value is taken from the cache",
  edits=[(F, """            cur_val += parameter._name + str(parameter._current_value) + "_"
""", """            cur_val += "%s%.3g_" % (parameter._name,
                                    parameter._current_value)
""")],
  demo=MK + '''
data = make("data", [1., 2., 3., 4., 3., 2., 1., 1.])
bg = make("bg", [1., 2., 3., 4., 3., 2., 1., 1.], rates=(17., None, 10., 24., 3))
c = GlobalFitConfig("g", OrderedDict())
sh = P.ShiftParameter("energy_mc_shift", 1., None, 1., 2., 3, "energy_mc")
c.add_par(sh, "global")
f = fit.Fit(OrderedDict([("energy", (0., 8.))]),
            test_statistic.BakerCousinsChi(), fit_config=c, data=data,
            floating_backgrounds=[bg])
seen = []
f._test_statistic.compute_statistic = lambda o, e: seen.append(e.copy()) or 0.


class Exact(object):
    pass


P.ShiftParameter.apply_to = lambda self, s: (
    lambda t: (t._data.__imul__(self._current_value), t)[1])(copy.copy(s))
f._funct(1.0001, 17.)
f._funct(1.0004, 17.)
assert numpy.isclose(seen[1].sum() / seen[0].sum(), 1.0004 / 1.0001,
                     rtol=1e-9) or not numpy.allclose(
    seen[0], seen[1], rtol=1e-6), seen
'''),
 dict(id="C13-signal-accumulates", property="C13", shims=SH,
  needs="a fit with fixed background and signal over every axis, run more than once",
  breaks="projecting on every axis hands out the stored bins, and the fit adds the signal to those of the fixed background, so every further fit has more of it",
  edits=[("echidna/core/spectra.py", """        if len(axes) == len(self._config.get_pars()):
            return copy.copy(self._data)
""", """        if len(axes) == len(self._config.get_pars()):
            return self._data
""")],
  demo=MK + '''
data = make("data", [2., 3., 4.])
fixed = make("fixed", [1., 2., 3.])
sig = make("sig", [1., 1., 1.])
f = fit.Fit(OrderedDict([("energy", (0., 3.))]),
            test_statistic.BakerCousinsChi(), data=data,
            fixed_backgrounds={fixed: 6.}, signal=sig)
a = f.fit()
b = f.fit()
assert numpy.allclose(a, b), (a, b)
'''),
 dict(id="C14-signal-of-old-region", property="C14", shims=SH,
  needs="a signal set before the region of interest is moved, while data and backgrounds are set again after it",
  breaks="the fit runs on a signal cut to the former region of interest",
  edits=[(F, """            if not self._signal_pars:
                raise CompatibilityError("signal roi pars have not been set.")
            self.check_spectra(self._signal)
""", """            if not self._signal_pars:
                raise CompatibilityError("signal roi pars have not been set.")
            self.check_spectra(self._fixed_background or self._data)
""")],
  demo=MK + '''
mk = lambda n: make(n, [2., 3., 4., 5., 6., 7., 8., 9.])   # noqa: E731
f = fit.Fit(OrderedDict([("energy", (0., 6.))]),
            test_statistic.BakerCousinsChi(), data=mk("data"),
            fixed_backgrounds={mk("fixed"): 6.}, signal=mk("sig"))
class Min(object):
    _per_bin = False

    def get_name(self):
        return "min"


f.set_minimiser(Min())
quiet(f.check_fitter)
f.set_roi(OrderedDict([("energy", (2., 8.))]))
f.set_data(mk("data"))
f.set_fixed_background(mk("fixed"))
assert rejected(f.check_fitter)
f.set_signal(mk("sig"))
quiet(f.check_fitter)
'''),
 dict(id="C14-fixed-unchecked", property="C14", shims=SH,
  needs="a ready-made fixed background handed over with shrink=False",
  breaks="set_fixed_background(shrink=False) accepts a background outside the region of interest",
  edits=[(F, """            self.check_spectra(fixed_background)
        self._fixed_background = fixed_background
""", """            self.check_spectra(self._data or fixed_background)
        self._fixed_background = fixed_background
""")],
  demo=MK + '''
data = make("data", [2., 3., 4., 5.])
f = fit.Fit(OrderedDict([("energy", (0., 4.))]),
            test_statistic.BakerCousinsChi(), data=data)
assert rejected(f.set_fixed_background, make("b", [1.] * 6), shrink=False)
assert not rejected(f.set_fixed_background, make("b", [1.] * 4), shrink=False)
'''),
 dict(id="C15-tiny-scale", property="C15", shims=SH,
  needs="a signal scale that is small but not zero",
  breaks="the signal is left out of the fit for scales below 0.01",
  edits=[(L, """            if not numpy.isclose(scale, 0.):
                if self._fitter.get_signal()""", """            if not numpy.isclose(scale, 0., atol=1e-2):
                if self._fitter.get_signal()""")],
  demo=MK + '''
data = make("data", [2., 3., 4.])
fixed = make("fixed", [2., 3., 4.])
sig = make("sig", [1., 1., 1.], rates=(0., None, 0., 0.008, 5))
f = fit.Fit(OrderedDict([("energy", (0., 3.))]),
            test_statistic.BakerCousinsChi(), data=data,
            fixed_backgrounds={fixed: 9.})
l = limit.Limit(sig, f)
v = quiet(l.get_limit, limit=1e-7, store_limit=False)
st = numpy.array(l._limit_results.get_full_stats()).ravel()
assert (st[1:] > 0.).all(), st
'''),
 dict(id="C15-global-last", property="C15", shims=SH,
  needs="statistics that fall below the threshold again after exceeding it",
  breaks="the limit is the scale after the last one below the threshold, not the first one above it",
  edits=[(L, """            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
""", """            i_limit = min_bin + numpy.where(stats[min_bin:] <= limit)[0][-1] + 1
            if i_limit == len(stats):
                raise IndexError("threshold not reached")
""")],
  demo=MK + '''
data = make("data", [2., 3., 4.])
fixed = make("fixed", [2., 3., 4.])
sig = make("sig", [1., 1., 1.], rates=(0., None, 0., 4., 5))
f = fit.Fit(OrderedDict([("energy", (0., 3.))]),
            test_statistic.BakerCousinsChi(), data=data,
            fixed_backgrounds={fixed: 9.})
vals = iter([0., 0., 3., 1., 5., 6.])
l = limit.Limit(sig, f)
f.fit = lambda: next(vals)
v = quiet(l.get_limit, limit=2.71, store_limit=False)
assert v == 1., v
'''),
 dict(id="C24-view", property="C24", shims=SH,
  needs="a raw statistics array that the caller changes after reading it",
  breaks="get_stats hands out the stored grid itself when there is nothing to sum, and adds the penalties into it",
  edits=[(M, """        combined = copy.copy(self._stats)

        # Collapse by summing over spectral dimensions
        if self._per_bin:
            for dim_size in self._spectra_config.get_shape():
                combined = numpy.sum(combined, axis=-1)  # always last axis

        # Add penalties
        combined = combined + self._penalty_terms
        return combined
""", """        combined = self._stats

        # Collapse by summing over spectral dimensions
        if self._per_bin:
            for dim_size in self._spectra_config.get_shape():
                combined = numpy.sum(combined, axis=-1)  # always last axis

        # Add penalties
        combined += self._penalty_terms
        return combined
""")],
  demo=MK + '''
g = grid(OrderedDict([("a", (0., 4., 5, 2., None))]))
g.set_stats(numpy.arange(5.))
g.set_penalty_terms(numpy.ones(5))
a = g.get_stats().copy()
b = g.get_stats().copy()
assert (a == b).all() and (a == numpy.arange(5.) + 1.).all(), (a, b)
'''),
 dict(id="C24-best-fit-row", property="C24", shims=SH,
  needs="limit results with two or more parameters and scales",
  breaks="the penalty term read for one parameter and scale is that of the first parameter when the index is its last",
  edits=[(R, """        i = self._fit_config.get_index(par)
        return self._penalty_terms[scale_idx, i]
""", """        i = self._fit_config.get_index(par)
        return self._penalty_terms[scale_idx, i - len(self._penalty_terms)
                                   if i >= len(self._penalty_terms) else i]
""")],
  demo=MK + '''
g = grid(OrderedDict((n, (0., 1., 2, 0., None)) for n in "abc"))
d = OrderedDict()
d["energy_mc"] = {"low": 0., "high": 3., "bins": 3}
lc = SpectraFitConfig("l", OrderedDict([("rate", P.RateParameter(
    "rate", 0., None, 0., 1., 2))]), "sig")
r = fit_results.LimitResults(g.get_fit_config(),
                             SpectraConfig.load({"parameters": d}), lc)
for i in range(2):
    for j, n in enumerate("abc"):
        r.set_penalty_term(i, 10. * i + j, n)
for i in range(2):
    for j, n in enumerate("abc"):
        assert r.get_penalty_term(i, n) == 10. * i + j, (i, n)
'''),
]
