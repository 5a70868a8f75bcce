"""Shared strategies.  All return JSON-able values."""
import math

import numpy as np
from hypothesis import strategies as st


# Hypothesis draws integers over a wide range from a distribution that strongly favours small magnitudes.  Here most
# quantities are physical and should cover their range evenly, so wide draws are assembled from base-100 digits, each of
# which it draws evenly; a separate selector emphasises the end points.
_SEL = st.integers(0, 24)
_DIG = st.integers(0, 99)


def _unit(n):
    return st.tuples(_SEL, *([_DIG] * n))


def uint(lo, hi):
    """An evenly distributed integer in [lo, hi]; shrinks towards lo."""
    span = hi - lo + 1
    n = max(1, math.ceil(math.log(span, 100) - 1e-12))
    if span <= 100:
        return st.integers(lo, hi)

    def pick(t):
        if t[0] == 24:
            return hi
        if t[0] == 23:
            return lo
        v = 0
        for d in t[1:]:
            v = v * 100 + d
        return lo + v * span // 100 ** n

    return _unit(n).map(pick)


def q(lo, hi):
    """An evenly distributed float on a lattice of about 1e6 steps over [lo, hi]; shrinks towards 0 or the lower end."""

    def pick(t):
        if t[0] == 24:
            return float(hi)
        if t[0] == 23:
            return float(lo)
        v = (t[1] * 100 + t[2]) * 100 + t[3]
        if lo <= 0 <= hi:
            if t[0] == 22:
                return 0.0
            x = v * (hi - lo) / 1e6
            return float(x if x <= hi else hi - x)
        return float(lo + v * (hi - lo) / 1e6)

    return _unit(3).map(pick)


def logq(lo, hi):
    """Log-uniform float over [lo, hi], both positive."""
    a, b = math.log10(lo), math.log10(hi)
    return st.tuples(_DIG, _DIG).map(lambda t: float(10 ** (a + (b - a) * (t[0] * 100 + t[1]) / 9999.0)))


def seeds():
    return uint(0, 10 ** 6 - 1)


def rng(seed):
    """Bulk content as a pure function of a drawn integer."""
    return np.random.Generator(np.random.PCG64(int(seed)))


def angle_deg(lim):
    """Degrees within +-lim, with the special headings over-represented."""
    special = [float(a) for a in (0, 90, -90, 180, -180, 45, -45, 1e-6, -1e-6, 89.999, 30) if abs(a) <= lim]
    return st.one_of(q(-lim, lim), st.sampled_from(special))


def fixed(**kw):
    return st.fixed_dictionaries(kw)


# ---- array content by drawn seed --------------------------------------------------------------------------------------
DTYPES = ["uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"]


def array_of(seed, shape, dtype, kind="mixed"):
    g = rng(seed)
    dt = np.dtype(dtype)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if kind == "small":
            return g.integers(0, 100, size=shape).astype(dt)
        if kind == "extreme":
            a = g.integers(info.min, info.max, size=shape, dtype=dt, endpoint=True)
            return a
        return g.integers(max(info.min, -1000), min(info.max, 1000), size=shape, endpoint=True).astype(dt)
    a = g.normal(0, 1, size=shape)
    if kind == "extreme":
        a = a * 10.0 ** g.integers(-12, 12, size=shape)
    elif kind == "small":
        a = g.uniform(0, 100, size=shape)
    else:
        a = a * 1000.0
    return a.astype(dt)


# ---- smooth test fields, so that bilinear / exactness statements have closed forms ------------------------------------
def affine_field(coef, xs, ys):
    a, b, c = coef
    return a + b * np.asarray(xs, dtype=float) + c * np.asarray(ys, dtype=float)


def side(small, big, lo=1):
    """A size: mostly small (simple to read and quick), sometimes of the size of real data."""
    return st.one_of(uint(lo, small), uint(lo, small), uint(lo, small), uint(lo, small), uint(small, big))


def laid(a, k):
    """The same array, laid out in memory in one of several ways by the integer k: as rows, as columns, as every second
    element of a larger array, backwards, as a window of a larger array."""
    a = np.asarray(a)
    k = int(k) % 7
    if a.ndim == 0 or k < 2:
        return np.array(a, order="C")
    if k == 2 or k == 3:
        return np.array(a, order="F")
    if k == 4:
        big = np.zeros([2 * n for n in a.shape], a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
    elif k == 5:
        big = np.zeros(a.shape, a.dtype)
        s = (slice(None, None, -1),) * a.ndim
    else:
        big = np.zeros([n + 3 for n in a.shape], a.dtype)
        s = tuple(slice(1, 1 + n) for n in a.shape)
    big[s] = a
    return big[s]
