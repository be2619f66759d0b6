"""Stand-in for matplotlib.pyplot.  Figures keep the artists asked of their
axes in `artists`, as (kind, contents)."""
import numpy

_figures = {}
_current = [None]


class _Box(object):
    x0, y0, width, height = 0.125, 0.1, 0.775, 0.8


class _Any(object):
    """Something that can be asked for anything."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _Any()


class Axes(object):
    def __init__(self):
        self.artists, self.texts = [], {}

    def hist(self, x, bins=10, weights=None, label=None, log=False,
             histtype="bar", color=None, **k):
        x = numpy.asarray(x, dtype=float).ravel()
        w = None if weights is None else numpy.asarray(weights).ravel()
        if w is not None and len(w) != len(x):
            raise ValueError("The weights argument must have the same shape "
                             "as the data argument")
        n, e = numpy.histogram(x, bins=bins, weights=w)
        self.artists.append(("hist", {"edges": e, "counts": n,
                                      "label": label, "color": color}))
        return n, e, []

    def plot(self, *a, **k):
        xs = [numpy.asarray(v, dtype=float) for v in a
              if not isinstance(v, str)]
        if len(xs) == 1:
            xs = [numpy.arange(len(xs[0])), xs[0]]
        if len(xs) > 1 and xs[0].shape != xs[1].shape:
            raise ValueError("x and y must have same first dimension")
        self.artists.append(("plot", {"x": xs[0], "y": xs[1],
                                      "label": k.get("label")}))
        return [_Any()]

    def fill_between(self, x, y1, y2=0, **k):
        x = numpy.asarray(x, dtype=float)
        y1, y2 = [numpy.broadcast_to(numpy.asarray(y, dtype=float), x.shape)
                  for y in (y1, y2)]
        self.artists.append(("between", {"x": x, "low": y1, "high": y2,
                                         "label": k.get("label")}))
        return _Any()

    def pcolormesh(self, X, Y, C, **k):
        X, Y, C = [numpy.asarray(v) for v in (X, Y, C)]
        r, c = C.shape
        if X.shape not in ((r, c), (r + 1, c + 1)) or Y.shape != X.shape:
            raise TypeError("Dimensions of C %s are incompatible with X (%s) "
                            "and/or Y (%s)" % (C.shape, X.shape, Y.shape))
        self.artists.append(("mesh", {"x": X, "y": Y, "c": C}))
        return _Any()

    def errorbar(self, *a, **k):
        return _Any()

    def set_xlabel(self, t, **k):
        self.texts["x"] = t

    def set_ylabel(self, t, **k):
        self.texts["y"] = t

    def get_position(self):
        return _Box()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _Any()


class Figure(object):
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def gca(self, **k):
        return self.axes[-1] if self.axes else self.add_subplot()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _Any()


def figure(num=None, **k):
    if num is None:
        num = max([n for n in _figures if isinstance(n, int)] or [0]) + 1
    if num not in _figures:
        _figures[num] = Figure()
    _current[0] = _figures[num]
    return _current[0]


def gcf():
    return _current[0] or figure()


def gca(**k):
    return gcf().gca()


def close(fig=None):
    _figures.clear()
    _current[0] = None


def show(*a, **k):
    pass


def subplots(*a, **k):
    f = figure()
    return f, f.add_subplot()


def hist(*a, **k):
    return gca().hist(*a, **k)


def plot(*a, **k):
    return gca().plot(*a, **k)


def pcolormesh(*a, **k):
    return gca().pcolormesh(*a, **k)


def xlabel(t, **k):
    gca().set_xlabel(t)


def ylabel(t, **k):
    gca().set_ylabel(t)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *a, **k: _Any()
