import numpy


class FixedLocator(object):
    def __init__(self, locs, nbins=None):
        self.locs = numpy.asarray(locs)

    def tick_values(self, vmin, vmax):
        return self.locs


class _Locator(object):
    def __init__(self, *a, **k):
        pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Locator
