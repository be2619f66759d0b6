"""Shared helpers of the conformance drivers: exact projections of values into
JSON, and the recorder that turns every call into one trace line."""
import json
import math
import signal


def fl(x):
    """Exact text of a real number ("nan"/"inf"/"-inf" included); "bad" for
    anything that is not one."""
    try:
        if isinstance(x, bool):
            return "1" if x else "0"
        if isinstance(x, int):
            return str(x)
        if hasattr(x, "shape") and x.shape != ():
            if x.size != 1:
                return "bad"
        y = float(x)
    except Exception:
        return "bad"
    if math.isnan(y):
        return "nan"
    if math.isinf(y):
        return "inf" if y > 0 else "-inf"
    if y == int(y) and abs(y) < 1e15:
        return str(int(y))
    return repr(y)


def it(x):
    """An int, or -999999 for anything else."""
    try:
        y = int(x)
        if y != x or abs(y) > 10 ** 9:
            return -999999
        return y
    except Exception:
        return -999999


def flat(a):
    """Flattened array (row-major) as a list of exact texts."""
    try:
        return [fl(v) for v in a.ravel().tolist()]
    except Exception:
        try:
            return [fl(v) for v in a]
        except Exception:
            return ["bad"]


def shape(a):
    try:
        return [int(n) for n in a.shape]
    except Exception:
        return [-1]


def tx(x):
    """Text, or a marker naming the type."""
    if x is None:
        return "none"
    if isinstance(x, str):
        return x
    if isinstance(x, bytes):
        return x.decode("utf-8", "replace")
    return "<%s>" % type(x).__name__


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class Recorder(object):
    def __init__(self, out):
        self.out = out
        self.n = 0
        self.seq = 0
        self.calls = {}

    def start(self, seq):
        self.seq = seq

    def event(self, **ev):
        ev["sq"] = self.seq
        self.n += 1
        k = ev.get("op", "?")
        self.calls[k] = self.calls.get(k, 0) + 1
        self.out.write(json.dumps(ev, sort_keys=True) + "\n")


def attempt(f, *a, **k):
    """Run f; returns (ok, value, error type name)."""
    import io
    import sys
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        try:
            return True, f(*a, **k), ""
        finally:
            sys.stdout = old
    except Timeout:
        raise
    except Exception as e:      # any library error is an outcome to judge
        return False, None, type(e).__name__
