# seeds: plots
import sys
sys.path.insert(0, "/verif/tools/seedsrc")
from other import MK
PL = "echidna/output/plot.py"
PR = "echidna/output/plot_root.py"
FR = "echidna/fit/fit_results.py"
SH = ["scipy", "site/h5py.py", "site/ROOT.py", "site/matplotlib"]

LIM = MK + '''
from echidna.fit.fit_results import LimitResults


def limit(stats, pens, bests):
    n, k = numpy.shape(pens)
    pars = OrderedDict(("p%d" % i, {"par": P.RateParameter(
        "p%d" % i, i + 1., 2., 0., 10., 11), "dim": "g", "spectra": "g"})
        for i in range(k))
    sig = OrderedDict(rate=P.RateParameter("rate", 1., None, 0., n - 1., n))
    r = LimitResults(GlobalFitConfig("g", pars),
                     conf(energy_mc=(0., 3., 3)),
                     SpectraFitConfig("s", sig, "s"), name="lim")
    r._stats = numpy.array(stats, dtype=float)
    r._penalty_terms = numpy.array(pens, dtype=float)
    r._best_fits = numpy.array(bests, dtype=float)
    return r
'''
GS = MK + '''
from echidna.fit.minimise import GridSearch


def grid(pars, stats, pens):
    """GridSearch over pars: name -> (low, high, bins)"""
    d = OrderedDict((n, {"par": P.RateParameter(n, lo, 1., lo, hi, b),
                         "dim": "g", "spectra": "g"})
                    for n, (lo, hi, b) in pars)
    g = GridSearch(GlobalFitConfig("g", d), conf(energy_mc=(0., 3., 3)), "g",
                   per_bin=False)
    g._stats = numpy.array(stats, dtype=float)
    g._penalty_terms = numpy.array(pens, dtype=float)
    return g
'''

SEEDS = [
 dict(id="C27-shared-sum", property="C27", shims=SH,
      needs="a spectral plot of at least two spectra of which one is marked as background",
      breaks="the running sums of spectral_plot share one array (and the projection they start from), so the summed background and the sum are both wrong",
      edits=[(PL, """    summed_background = numpy.zeros(shape=shape)
    summed_total = numpy.zeros(shape=shape)
""", """    summed_background = summed_total = numpy.zeros(shape=shape)
"""), (PL, """        summed_total = summed_total + spectra.project(dimension)
""", """        summed_total += spectra.project(dimension)
""")],
      demo=MK + '''
from echidna.output import plot
import matplotlib.pyplot as plt
a, b = make("a", [1, 2, 3]), make("b", [10, 20, 30])
d = OrderedDict([("b", {"spectra": b, "type": "signal", "label": "B"}),
                 ("a", {"spectra": a, "type": "background", "label": "A"})])
fig = quiet(plot.spectral_plot, d, "energy_mc", show_plot=False)
got = {}
for ax in fig.axes:
    for kind, h in ax.artists:
        if kind == "hist":
            got[h["label"]] = list(h["counts"])
assert got["Summed background"] == [1, 2, 3], got
assert got["Sum"] == [11, 22, 33], got
'''),
 dict(id="C27-swapped-penalty", property="C27", shims=SH,
      needs="full statistics over two parameters, the first named of which comes second in the fit, with the same grid for both or on-grid values",
      breaks="plot_stats_vs_pars adds the penalty term of the transposed grid point when par1 follows par2 in the configuration",
      edits=[(PR, """                kwargs[par1] = p1.get_value_at(idx_2)
                kwargs[par2] = p2.get_value_at(idx_1)
""", """                kwargs[par1] = p1.get_value_at(idx_1)
                kwargs[par2] = p2.get_value_at(idx_2)
""")],
      demo=GS + '''
from echidna.output import plot_root
g = grid([("a", (0., 1., 2)), ("b", (0., 1., 2))],
         [[1, 2], [3, 4]], [[10, 20], [30, 40]])
h = quiet(plot_root.plot_stats_vs_pars, g, "b", "a", graphical=False)
got = [[h.GetBinContent(i + 1, j + 1) for j in range(2)] for i in range(2)]
assert got == [[11, 33], [22, 44]], got
'''),
 dict(id="C27-penalty-in-place", property="C27", shims=SH,
      needs="limit results with per-bin statistics, plotted (or read) twice",
      breaks="get_full_stats adds the penalty terms to the stored per-bin statistics in place, once per bin: the plotted statistics are too large and every further plot raises them again",
      edits=[(FR, """            stat = numpy.sum(stat)
            for penalty in self._penalty_terms[i]:
                stat += penalty
            stats[i] = stat
        return stats
""", """            for penalty in self._penalty_terms[i]:
                stat += penalty
            stats[i] = numpy.sum(stat)
        return stats
""")],
      demo=LIM + '''
from echidna.output import plot_root
r = limit([[1, 2], [3, 4]], [[5], [6]], [[0], [0]])
for _ in range(2):
    g = quiet(plot_root.plot_stats_vs_scale, r, graphical=False)
    assert numpy.allclose(r.get_full_stats(), [8, 13]), r.get_full_stats()
assert numpy.allclose(r._stats, [[1, 2], [3, 4]]), r._stats
'''),
 dict(id="C27-surface-labels", property="C27", shims=SH,
      needs="a surface whose first named dimension comes second in the configuration",
      breaks="the labels of plot.plot_surface no longer follow the axes they describe when dimension1 comes after dimension2",
      edits=[(PL, """        axis.set_xlabel("%s (%s)" % (dimension1, par1.get_unit()))
        axis.set_ylabel("%s (%s)" % (dimension2, par2.get_unit()))
""", """        axis.set_xlabel("%s (%s)" % (dimension2, par2.get_unit()))
        axis.set_ylabel("%s (%s)" % (dimension1, par1.get_unit()))
""")],
      demo=MK + '''
from echidna.output import plot
s = spectra.Spectra("s", 1., conf(energy_mc=(0., 2., 2), radial3_mc=(0., 3., 3)))
s._data = numpy.arange(1., 7.).reshape(s._data.shape)
names = list(s.get_config().get_pars())
fig = quiet(plot.plot_surface, s, names[1], names[0], show_plot=False)
axes = fig.axes
ax = [a for a in axes if any(k == "mesh" for k, _ in a.artists)][0]
mesh = [v for k, v in ax.artists if k == "mesh"][0]
n = {p: s.get_config().get_par(p)._bins for p in names}
r, c = numpy.shape(mesh["c"])
assert ax.texts["x"].startswith([p for p in names if n[p] == c][0]), ax.texts
assert ax.texts["y"].startswith([p for p in names if n[p] == r][0]), ax.texts
'''),
]
