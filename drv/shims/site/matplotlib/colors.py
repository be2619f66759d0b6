class BoundaryNorm(object):
    def __init__(self, boundaries, ncolors=None, clip=False):
        self.boundaries, self.N = boundaries, ncolors


class _Norm(object):
    def __init__(self, *a, **k):
        pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Norm
