"""Image cubes with correlated bands, and masks."""
import numpy as np
from hypothesis import strategies as st

from harness.gens import fixed, laid, logq, q, rng, seeds

DT = ["float64", "float64", "float64", "float32", "uint8", "uint16", "int16", "int32", "int8", "uint32", "int64"]

cube_case = fixed(ny=st.integers(1, 9), nx=st.integers(2, 9), nb=st.integers(2, 6), seed=seeds(), dtype=st.sampled_from(DT), scale=logq(0.01, 1000),
                  offset=q(-3, 10), mask=st.sampled_from(["none", "none", "bool", "01", "0255", "float", "share", "big"]), frac=q(0.05, 0.6), order=st.sampled_from(["C", "C", "F", "view"]))


def tall(k):
    """the same case with a scene of hundreds of lines or samples"""
    return {**k, "ny": 20 + 31 * k["ny"], "nx": 320 - 33 * k["nx"]}


def deep(k):
    """the same case with many bands"""
    return {**k, "ny": 20 + 2 * k["ny"], "nx": 25 + k["nx"], "nb": 20 * k["nb"] - 7 * (k["seed"] % 2)}


def values(ny, nx, nb, seed, dtype, scale=1.0, offset=0.0):
    """float values of the given dtype; at least nb + 3 pixels vary independently in every band"""
    g = rng(seed)
    n = ny * nx
    mix = np.eye(nb) + min(0.5, 1.2 / np.sqrt(nb)) * g.uniform(-1, 1, (nb, nb))
    a = g.normal(0, 1, (n, nb)) @ mix
    dt = np.dtype(dtype)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        top = min(info.max, 60000)
        lo = max(info.min, -top)
        mid = (lo + top) / 2.0
        # the whole range of the type is in use
        a = np.clip(np.round(mid + a * (top - lo) / 7.0), lo, top).astype(dt)
    else:
        a = ((a + offset) * scale).astype(dt)
    return a.reshape(ny, nx, nb)


def mask_of(case, ny, nx, nb, seed):
    """None, or a mask (nonzero: pixel left out) which keeps at least 2 nb + 2 pixels"""
    kind = case["mask"]
    if kind == "none":
        return None
    g = rng(seed + 77)
    m = g.random(ny * nx) < case["frac"]
    keep = g.permutation(ny * nx)[:2 * nb + 2]
    m[keep] = False
    m = laid(m.reshape(ny, nx), seed + 3)
    if kind == "bool":
        return m
    if kind == "0255":
        return (m * 255).astype("uint8")
    if kind == "share":
        # such as the share of a pixel that is covered by cloud: not zero where it counts as masked
        return m * g.uniform(0.01, 0.99, m.shape)
    if kind == "big":
        return m * np.array([256, -1, 65536, 512])[g.integers(0, 4, m.shape)]
    return m.astype(float) if kind == "float" else m.astype(int)


def make(case, seed=None):
    """cube (ny, nx, nb), mask (ny, nx) or None; always enough pixels for a covariance of full rank"""
    nb = case["nb"]
    ny, nx = case["ny"], case["nx"]
    while ny * nx < 3 * nb + 4:
        ny += 1
    s = case["seed"] if seed is None else seed
    a = values(ny, nx, nb, s, case["dtype"], case["scale"], case["offset"])
    if case["order"] == "F":
        a = np.asfortranarray(a)
    elif case["order"] == "view":
        b = np.zeros((ny, nx * 2, nb + 1), a.dtype)
        b[:, ::2, :nb] = a
        a = b[:, ::2, :nb]
    return a, mask_of(case, ny, nx, nb, s)


def kept(a, m):
    """the pixels that are not left out, as float64 rows"""
    f = np.asarray(a, dtype=float).reshape(-1, a.shape[-1])
    return f if m is None else f[np.ravel(np.asarray(m) == 0)]


def mean_cov(rows):
    mu = rows.sum(axis=0) / len(rows)
    d = rows - mu
    return mu, d.T @ d / (len(rows) - 1)


def plain(x):
    return np.ma.filled(x, np.nan) if isinstance(x, np.ma.MaskedArray) else np.asarray(x)


def rtol(case):
    return 1e-4 if case["dtype"] == "float32" else 1e-8
