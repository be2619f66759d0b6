"""Stand-in for the parts of ROOT and RAT that read event files: a file is
JSON, either {"entries": [...]} (RAT data structures) or {"rows": [...]}
(ntuple).  As in PyROOT, looping over a chain yields the chain itself, whose
attributes are those of the entry read last."""
import json
import math


class TObject(object):
    pass


class TVector3(TObject):
    def __init__(self, x=0., y=0., z=0.):
        self._v = (float(x), float(y), float(z))

    def __getitem__(self, i):
        return self._v[i]

    __call__ = __getitem__

    def X(self):
        return self._v[0]

    def Y(self):
        return self._v[1]

    def Z(self):
        return self._v[2]

    x, y, z = X, Y, Z

    def Mag2(self):
        return sum(c * c for c in self._v)

    def Mag(self):
        return math.sqrt(self.Mag2())

    def Perp(self):
        return math.hypot(self._v[0], self._v[1])

    def CosTheta(self):
        return self._v[2] / self.Mag() if self.Mag() else 1.


def _read(name):
    with open(name) as f:
        return json.load(f)


class TChain(TObject):
    def __init__(self, name="", title=""):
        self._rows, self._at = [], -1

    def Add(self, name, nentries=-1):
        self._rows.extend(_read(name)["rows"])
        return 1

    def GetEntries(self):
        return len(self._rows)

    def __len__(self):
        return len(self._rows)

    def GetEntry(self, i=0, getall=0):
        if not 0 <= i < len(self._rows):
            return 0
        self._at = i
        return 1

    LoadTree = GetEntry

    def __iter__(self):
        for i in range(len(self._rows)):
            self._at = i
            yield self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        rows = self.__dict__.get("_rows", [])
        if rows and name not in rows[0]:
            raise AttributeError(name)
        return rows[self._at][name] if self._at >= 0 else 0


class _FitVertex(TObject):
    def __init__(self, d):
        self._d = d

    def ContainsEnergy(self):
        return self._d["e"]["has"]

    def ValidEnergy(self):
        if not self._d["e"]["has"]:
            raise RuntimeError("FitVertex: energy not set")
        return self._d["e"]["ok"]

    def GetEnergy(self):
        if not self._d["e"]["has"]:
            raise RuntimeError("FitVertex: energy not set")
        return float(self._d["e"]["v"])

    def ContainsPosition(self):
        return self._d["p"]["has"]

    def ValidPosition(self):
        if not self._d["p"]["has"]:
            raise RuntimeError("FitVertex: position not set")
        return self._d["p"]["ok"]

    def GetPosition(self):
        if not self._d["p"]["has"]:
            raise RuntimeError("FitVertex: position not set")
        return TVector3(*self._d["p"]["v"])


class _EV(TObject):
    def __init__(self, d):
        self._d = d

    def DefaultFitVertexExists(self):
        return self._d["fit"]

    def GetDefaultFitVertex(self):
        if not self._d["fit"]:
            raise RuntimeError("EV: no default fit vertex")
        return _FitVertex(self._d)


class _Particle(TObject):
    def __init__(self, v):
        self._v = v

    def GetPosition(self):
        return TVector3(*self._v)


class _MC(TObject):
    def __init__(self, d):
        self._d = d

    def GetMCParticleCount(self):
        return len(self._d["parts"])

    def GetMCParticle(self, i):
        if not 0 <= i < len(self._d["parts"]):
            raise IndexError("MC: no particle %d" % i)
        return _Particle(self._d["parts"][i])

    def GetScintQuenchedEnergyDeposit(self):
        return float(self._d["quenched"])

    def GetScintEnergyDeposit(self):
        return float(self._d["edep"])


class _DS(TObject):
    def __init__(self, d):
        self._d = d

    def GetMC(self):
        return _MC(self._d)

    def GetEVCount(self):
        return len(self._d["evs"])

    def GetEV(self, i):
        if not 0 <= i < len(self._d["evs"]):
            raise IndexError("DS: no event %d" % i)
        return _EV(self._d["evs"][i])


class _DSReader(TObject):
    def __init__(self, name):
        self._entries = _read(name)["entries"]

    def GetEntryCount(self):
        return len(self._entries)

    def GetEntry(self, i):
        if not 0 <= i < len(self._entries):
            raise IndexError("DSReader: no entry %d" % i)
        return _DS(self._entries[i])


class RAT(object):
    class DU(object):
        DSReader = _DSReader


# ------------------------------------------------------------- drawing
_drawn = []         # what has been drawn: (object, canvas file or "")


class _Static(type):
    def __getattr__(cls, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: _Drawn()


class _Drawn(TObject, metaclass=_Static):
    """A graphics object: takes any call, and returns another."""

    def __init__(self, *a):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: _Drawn()

    def __float__(self):
        return 0.

    def __int__(self):
        return 0

    def Draw(self, *a):
        _drawn.append(self)


class _Hist(_Drawn):
    def __init__(self, name, title, *axes):
        self._name, self._title = str(name), str(title)
        self._axes, self._bins = [], {}
        for i in range(0, len(axes), 3):
            n, lo, hi = axes[i:i + 3]
            if n != int(n):
                raise TypeError("number of bins must be an int")
            self._axes.append((int(n), float(lo), float(hi)))

    def _set(self, at, v):
        self._bins[at] = float(v)

    def GetName(self):
        return self._name

    def GetTitle(self):
        return self._title

    def GetNbinsX(self):
        return self._axes[0][0]

    def GetNbinsY(self):
        return self._axes[1][0]

    def GetBinContent(self, *at):
        return self._bins.get(at, 0.)

    def Add(self, other, c=1.):
        if [a[0] for a in self._axes] != [a[0] for a in other._axes]:
            raise ValueError("TH1::Add: different number of bins")
        for at, v in other._bins.items():
            self._bins[at] = self._bins.get(at, 0.) + c * v

    def _stray(self):
        """Bins out of range that were given content."""
        return len([at for at, v in self._bins.items() if v and not all(
            1 <= i <= a[0] for i, a in zip(at, self._axes))])

    def _cells(self):
        """Contents in range, the first axis slowest."""
        import itertools
        return [self._bins.get(at, 0.) for at in itertools.product(
            *[range(1, n + 1) for n, _, _ in self._axes])]


class TH1D(_Hist):
    def SetBinContent(self, i, v):
        self._set((i,), v)


class TH2D(_Hist):
    def SetBinContent(self, i, j, v):
        self._set((i, j), v)


TH1F, TH2F = TH1D, TH2D


class TGraph(_Drawn):
    def __init__(self, n, x, y):
        self._x, self._y = [], []
        for v, k in ((x, self._x), (y, self._y)):
            if getattr(v, "ndim", 1) != 1:
                raise TypeError("TGraph: arrays of numbers expected")
            k.extend(float(u) for u in v)
        if n != int(n) or len(self._x) < n or len(self._y) < n:
            raise TypeError("TGraph: %s points expected" % n)
        self._x, self._y = self._x[:int(n)], self._y[:int(n)]
        self._title = ""

    def SetTitle(self, t):
        self._title = str(t)


class TCanvas(_Drawn):
    def Clear(self, *a):
        del _drawn[:]

    def Print(self, name, *a):
        import json
        from_last = [o for o in _drawn if isinstance(o, TGraph)][-1:]
        with open(name, "w") as f:
            json.dump([[list(o._x), list(o._y)] for o in from_last], f)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name.startswith("k"):
        return 0
    return type(name, (_Drawn,), {})
