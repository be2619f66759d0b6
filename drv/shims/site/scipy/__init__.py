"""Stand-in: only scipy.interpolate.InterpolatedUnivariateSpline."""
from . import interpolate
