"""Stand-in for scipy.interpolate.InterpolatedUnivariateSpline (FITPACK's
interpolating spline: same knots, hence the same function; checked against
scipy by tools/check_spline.py)."""
import numpy


class InterpolatedUnivariateSpline(object):
    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0,
                 check_finite=False):
        x = [float(v) for v in numpy.asarray(x).ravel()]
        y = [float(v) for v in numpy.asarray(y).ravel()]
        k = int(k)
        n = len(x)
        if n != len(y):
            raise ValueError("x and y should have a same length")
        if not 1 <= k <= 5:
            raise ValueError("k should be 1 <= k <= 5")
        if n <= k:
            raise TypeError("fewer than %d data points" % (k + 1))
        if any(b <= a for a, b in zip(x, x[1:])):
            raise ValueError("x must be strictly increasing")
        t = [x[0]] * (k + 1)
        if k % 2:
            h = (k + 1) // 2
            t += x[h:n - h]
        else:
            h = k // 2
            t += [0.5 * (x[i] + x[i - 1]) for i in range(h + 1, n - h)]
        t += [x[-1]] * (k + 1)
        self._t, self._k, self._n = t, k, n
        a = numpy.zeros((n, n))
        for i in range(n):
            j = self._span(x[i])
            for m, b in enumerate(self._basis(j, x[i])):
                a[i, j - k + m] = b
        self._c = [float(v) for v in numpy.linalg.solve(a, numpy.array(y))]

    def _span(self, x):
        t, k, n = self._t, self._k, self._n
        if x >= t[n]:
            j = n - 1
            while t[j] == t[n] and j > k:
                j -= 1
            return j
        j = k
        while j < n - 1 and x >= t[j + 1]:
            j += 1
        return j

    def _basis(self, j, x):
        t, k = self._t, self._k
        b = [1.0]
        for d in range(1, k + 1):
            nb = [0.0] * (d + 1)
            for r in range(d):
                lo, hi = t[j - d + 1 + r], t[j + 1 + r]
                f = b[r] / (hi - lo)
                nb[r] += f * (hi - x)
                nb[r + 1] += f * (x - lo)
            b = nb
        return b

    def _eval(self, x):
        j = self._span(x)
        return sum(b * self._c[j - self._k + m]
                   for m, b in enumerate(self._basis(j, x)))

    def __call__(self, x, nu=0, ext=None):
        if nu:
            raise NotImplementedError("derivatives")
        a = numpy.asarray(x, dtype=float)
        if a.shape == ():
            return numpy.array(self._eval(float(a)))
        return numpy.array([self._eval(float(v)) for v in
                            a.ravel()]).reshape(a.shape)
