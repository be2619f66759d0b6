MK = '''
from collections import OrderedDict
import copy, io, os, tempfile
import numpy
from echidna.core.config import SpectraConfig
from echidna.core import spectra, scale, shift, smear


def make(axes, dec=10., data=None):
    d = OrderedDict()
    for n, lo, hi, b in axes:
        d[n] = {"low": lo, "high": hi, "bins": b}
    s = spectra.Spectra("t_mc", dec, SpectraConfig.load({"parameters": d}))
    if data is not None:
        s._data = numpy.array(data, dtype=float)
    return s


def rejected(f, *a, **k):
    try:
        f(*a, **k)
        return False
    except Exception:
        return True

'''
H = "echidna/core/shift.py"
L = "echidna/core/scale.py"
M = "echidna/core/smear.py"
SEEDS = [
 dict(id="C06-shift-config", property="C06",
  needs="a shift by a whole number of bins, followed by a cut of the shifted spectrum",
  breaks="the shifted spectrum shares its configuration with its source, so cutting one corrupts the axes of the other",
  edits=[(H, """            raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                             % (shift, step))
        shifted_spec = copy.copy(spectrum)
""", """            raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                             % (shift, step))
        # the data is replaced below, so don't copy it
        shifted_spec = spectrum.__class__.__new__(spectrum.__class__)
        shifted_spec.__dict__.update(spectrum.__dict__)
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8)], data=[1, 2, 3, 4, 5, 6, 7, 8])
h = shift.Shift()
h.set_shift(1.)
t = h.shift(s, "energy_mc")
t.shrink(energy_mc_low=2., energy_mc_high=6.)
assert s.get_config().get_par("energy_mc")._low == 0.
assert s.get_config().get_par("energy_mc")._bins == 8
'''),
 dict(id="C06-smear-source", property="C06",
  needs="random smearing of a spectrum which afterwards is used again",
  breaks="random light-yield smearing uses up the entries of the spectrum it is given",
  edits=[(M, """                for i in range(entries):
                    if self._poisson_smear is True:
                        photons = (numpy.fabs
                                   (numpy.random.poisson(mean_e *
                                                         self._light_yield)))
                        data[par] = photons / float(self._light_yield)
                    else:
                        data[par] = (numpy.fabs
                                     (numpy.random.normal(mean_e, sigma)))
                    try:
                        smeared_spec.fill(**data)
                    except ValueError:
                        print "WARNING: Smeared energy out of bounds. Skipping"
        smeared_spec._raw_events = spectrum._raw_events
        return smeared_spec


class EnergySmearRes""", """                while spectrum._data[bin] >= 1.:
                    spectrum._data[bin] -= 1.
                    if self._poisson_smear is True:
                        photons = (numpy.fabs
                                   (numpy.random.poisson(mean_e *
                                                         self._light_yield)))
                        data[par] = photons / float(self._light_yield)
                    else:
                        data[par] = (numpy.fabs
                                     (numpy.random.normal(mean_e, sigma)))
                    try:
                        smeared_spec.fill(**data)
                    except ValueError:
                        print "WARNING: Smeared energy out of bounds. Skipping"
        smeared_spec._raw_events = spectrum._raw_events
        return smeared_spec


class EnergySmearRes""")],
  demo=MK + '''
s = make([("energy_mc", 1., 9., 8)], data=[1, 2, 3, 4, 5, 6, 7, 8])
m = smear.EnergySmearLY()
t = m.random_smear(s)
assert t.sum() > 0
assert s.sum() == 36., s.sum()
'''),
 dict(id="C18-decays", property="C18",
  needs="a spectrum whose number of decays differs from its number of counts",
  breaks="a scaled spectrum claims as many decays as it has counts",
  edits=[(L, """        scaled_spec._num_decays = spectrum._num_decays
        return scaled_spec
""", """        scaled_spec._num_decays = prescale_sum
        return scaled_spec
""")],
  demo=MK + '''
s = make([("energy_mc", 1., 9., 8)], dec=100., data=[1, 2, 3, 4, 5, 6, 7, 8])
h = scale.Scale()
h.set_scale_factor(1.1)
t = h.scale(s, "energy_mc")
assert t.get_num_decays() == 100. and numpy.isclose(t.sum(), 36.)
'''),
 dict(id="C18-last-bin", property="C18",
  needs="scaling a dimension of a spectrum with more dimensions, by less than 1, with content in the last bin of the axis",
  breaks="when the lower neighbour is empty the slice of the other source bin is used, so other axes' content is misplaced",
  edits=[(L, """            elif unscaled_sum1 <= 0.:
                fill_cmd = ("scaled_spec._data" + cur_slice + "+= old_data2 * "
                            "(y / unscaled_sum2)")
                exec(fill_cmd)
            elif unscaled_sum2 <= 0.:
""", """            elif unscaled_sum1 <= 0. or unscaled_sum2 <= 0.:
                fill_cmd = ("scaled_spec._data" + cur_slice + "+= "
                            "(old_data1 + old_data2).mean() * "
                            "(y / (unscaled_sum1 + unscaled_sum2))")
                exec(fill_cmd)
            elif unscaled_sum2 <= 0.:
""")],
  demo=MK + '''
d = numpy.zeros((8, 4))
d[3] = [0., 1., 0., 3.]
d[6] = [2., 0., 0., 0.]
s = make([("energy_mc", 1., 9., 8), ("radial_mc", 0., 4., 4)], data=d)
h = scale.Scale()
h.set_scale_factor(1.05)
t = h.scale(s, "energy_mc")
assert numpy.isclose(t.sum(), 6.)
assert (t._data[:, 2] == 0.).all(), t._data
'''),
 dict(id="C19-negative", property="C19",
  needs="a negative shift by a whole number of bins",
  breaks="negative shifts by whole bins do not move the content that ends in the first bin",
  edits=[(H, """            if (x - shift) < low or (x - shift) > high:
                continue  # Trying to shift""", """            if (x - shift) < low or (x - shift) > high or x + shift < low:
                continue  # Trying to shift""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8)], data=[1, 2, 3, 4, 5, 6, 7, 8])
h = shift.Shift()
h.set_shift(-2.)
t = h.shift(s, "energy_mc")
assert list(t._data) == [3, 4, 5, 6, 7, 8, 0, 0], t._data
h.set_shift(2.)
t = h.shift(s, "energy_mc")
assert list(t._data) == [0, 0, 1, 2, 3, 4, 5, 6], t._data
'''),
 dict(id="C19-tolerance", property="C19",
  needs="a shift that is close to, but not, a whole number of bins",
  breaks="shifts within a tenth of a bin of a whole number are rounded to it",
  edits=[(H, """        preshift_sum = spectrum.sum()
""", """        if abs(shift / step - numpy.rint(shift / step)) < 0.1:
            whole = Shift()
            whole.set_shift(numpy.rint(shift / step) * step)
            return whole.shift_by_bin(spectrum, dimension)
        preshift_sum = spectrum.sum()
""")],
  demo=MK + '''
s = make([("energy_mc", 0., 8., 8)], data=[0, 0, 1, 8, 16, 2, 0, 0])
h = shift.Shift()
h.set_shift(1.05)
t = h.shift(s, "energy_mc")
assert numpy.isclose(t.sum(), 27.)
c = numpy.arange(8) + 0.5
m = (t._data * c).sum() / 27. - (s._data * c).sum() / 27.
assert abs(m - 1.05) < 0.04, m
'''),
 dict(id="C20-edge-weights", property="C20",
  needs="content so close to the upper end of the axis that part of it smears over the edge",
  breaks="the weights are not normalised when the upper bound was clipped, so content is lost",
  edits=[(M, """                        high = spectrum.get_config().get_par(
                            par).round(high + 0.5 * widths[i])
                        if low < spectrum.get_config().get_par(par)._low:
                            low = spectrum.get_config().get_par(par)._low + \\
                                0.5 * widths[i]
                        if high > spectrum.get_config().get_par(par)._high:
                            high = spectrum.get_config().get_par(par)._high
                        weights = []
                        for energy in numpy.arange(low, high, widths[i]):
                            if self._poisson_smear is True:
                                weights.append(self.calc_poisson_energy(energy,
                                                                        mean))
                            else:
                                weights.append(self.calc_gaussian(energy,
                                                                  mean,
                                                                  sigma))
                    else:
                        data[par_names[i]] = mean
                total_weight = sum(weights)
                i = 0
                for energy in numpy.arange(low, high, widths[idx]):
                    data[par] = energy
                    smeared_spec.fill(weight=entries*weights[i]/total_weight,
                                      **data)
                    i += 1
        smeared_spec._raw_events = spectrum._raw_events
        return smeared_spec

    def random_smear(self, spectrum, par="energy_mc"):
        \"\"\" Smears the energy of a :class:`spectra.Spectra` by
        generating a number of random points from  Gaussian PDF
""",
"""                        high = spectrum.get_config().get_par(
                            par).round(high + 0.5 * widths[i])
                        if low < spectrum.get_config().get_par(par)._low:
                            low = spectrum.get_config().get_par(par)._low + \\
                                0.5 * widths[i]
                        if high > spectrum.get_config().get_par(par)._high:
                            high = spectrum.get_config().get_par(par)._high
                        weights = []
                        for energy in numpy.arange(low, high, widths[i]):
                            if self._poisson_smear is True:
                                weights.append(self.calc_poisson_energy(energy,
                                                                        mean))
                            else:
                                weights.append(self.calc_gaussian(energy,
                                                                  mean,
                                                                  sigma))
                    else:
                        data[par_names[i]] = mean
                total_weight = sum(weights)
                if high == spectrum.get_config().get_par(par)._high:
                    total_weight += weights[-1]
                i = 0
                for energy in numpy.arange(low, high, widths[idx]):
                    data[par] = energy
                    smeared_spec.fill(weight=entries*weights[i]/total_weight,
                                      **data)
                    i += 1
        smeared_spec._raw_events = spectrum._raw_events
        return smeared_spec

    def random_smear(self, spectrum, par="energy_mc"):
        \"\"\" Smears the energy of a :class:`spectra.Spectra` by
        generating a number of random points from  Gaussian PDF
""")],
  demo=MK + '''
for cls in (smear.EnergySmearRes, smear.EnergySmearLY):
    m = cls()
    m.set_resolution(0.05 if cls is smear.EnergySmearRes else 400.)
    s = make([("energy_mc", 0., 8., 16)], data=[0.] * 15 + [5.])
    t = m.weighted_smear(s)
    assert numpy.isclose(t.sum(), 5.), t.sum()
    s = make([("energy_mc", 0., 8., 16)], data=[0.] * 8 + [5.] + [0.] * 7)
    t = m.weighted_smear(s)
    assert numpy.isclose(t.sum(), 5.), t.sum()
'''),
 dict(id="C20-negative-content", property="C20",
  needs="a spectrum with negative bin content",
  breaks="bins with negative content are left out of radial smearing",
  edits=[(M, """            entries = spectrum._data[bin]
            if entries:
                data = {}
                low = None
                high = None
                for i in range(len(bin)):
                    mean = self.get_bin_mean(lows[i], bin[i], widths[i])
                    if i == idx:
                        sigma = self.get_sigma()
""", """            entries = spectrum._data[bin]
            if entries > 0.:
                data = {}
                low = None
                high = None
                for i in range(len(bin)):
                    mean = self.get_bin_mean(lows[i], bin[i], widths[i])
                    if i == idx:
                        sigma = self.get_sigma()
""")],
  demo=MK + '''
m = smear.RadialSmear()
m.set_resolution(0.7)
s = make([("radial_mc", 0., 8., 8)], data=[0, 0, 5, 0, -2, 0, 0, 0])
t = m.weighted_smear(s)
assert numpy.isclose(t.sum(), 3.), t.sum()
'''),
]
