"""python3-vt tools/check_spline.py: compares the spline stand-in with scipy."""
import importlib.util, os, random
import numpy
from scipy.interpolate import InterpolatedUnivariateSpline as S
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../drv/shims/site/scipy/interpolate.py")
sp = importlib.util.spec_from_file_location("shim", p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
r = random.Random(1); worst = 0
for _ in range(2000):
    k = r.randint(1, 5); n = r.randint(k + 1, 25); x = numpy.cumsum([r.uniform(.1, 2) for _ in range(n)]); y = [r.uniform(0, 10) for _ in range(n)]
    a, b = S(x, y, k=k), m.InterpolatedUnivariateSpline(x, y, k=k)
    for q in [x[0] - .3, x[-1] + .2] + list(x) + [r.uniform(x[0], x[-1]) for _ in range(10)]:
        worst = max(worst, abs(float(a(q)) - float(b(q))) / (1 + abs(float(a(q)))))
print("worst relative difference", worst); assert worst < 1e-6
