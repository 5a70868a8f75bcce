"""C23  Navigation records."""
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, q, rng, seeds, side, uint

P = "C23"
results_stay(P)
assume_note(P, "at least two records, in order of time; queries are numbers or one- or two-dimensional arrays; angles are interpolated as plain numbers (no wrap at 360 degrees)")
assume_note(P, "pdal is not installed: a stand-in reads SBET files (17 doubles per record) into the structured array pdal's reader returns, so the reading of the binary format itself is not checked")

SBET = ["GpsTime", "Y", "X", "Z", "XVelocity", "YVelocity", "ZVelocity", "Roll", "Pitch", "Azimuth", "WanderAngle", "XBodyAccel", "YBodyAccel", "ZBodyAccel", "XBodyAngRate", "YBodyAngRate", "ZBodyAngRate"]
SNAKE = ["gps_time", "y", "x", "z", "x_velocity", "y_velocity", "z_velocity", "roll", "pitch", "azimuth", "wander_angle", "x_body_accel", "y_body_accel", "z_body_accel", "x_body_ang_rate", "y_body_ang_rate",
         "z_body_ang_rate"]
EO = ["gps_time", "easting", "northing", "height", "omega", "phi", "kappa", "lat", "lon"]


class Pipeline:
    def __init__(self, text):
        import json
        d = json.loads(text)
        d = d["pipeline"] if isinstance(d, dict) else d
        assert d[0]["type"] == "readers.sbet", d
        self.filename = d[0]["filename"]

    def validate(self):
        return True

    def execute(self):
        a = np.fromfile(self.filename, "<f8").reshape(-1, 17)
        order = ["X", "Y", "Z"] + [n for n in SBET if n not in "XYZ"]
        out = np.zeros(len(a), [(n, "f8") for n in order])
        for n in order:
            out[n] = a[:, SBET.index(n)]
        self.arrays = [out]
        return len(a)


def factory():
    if "pdal" not in sys.modules:
        m = types.ModuleType("pdal")
        sys.modules["pdal"] = m
    sys.modules["pdal"].Pipeline = Pipeline
    from resippy.photogrammetry.nav.nav_factory import NavFactory
    return NavFactory


def table(c, n, names):
    g = rng(c["seed"])
    t = c["t0"] + np.concatenate([[0], np.cumsum(g.uniform(0.001, 1.0, n - 1) * (1 if c["even"] else 10.0 ** g.integers(-2, 3, n - 1)))])
    cols = {}
    for i, k in enumerate(names):
        if k == "gps_time":
            cols[k] = np.round(t, 6)
        elif k in ("easting", "northing"):
            cols[k] = np.round(4e5 + 1e4 * i + np.cumsum(g.normal(0, 30, n)), 3)
        elif k in ("omega", "phi", "kappa", "roll", "pitch", "azimuth", "Roll", "Pitch", "Azimuth"):
            cols[k] = np.round(g.uniform(-180, 180, n), 5)
        else:
            cols[k] = np.round(g.normal(0, 100, n), 5)
    return cols


def queries(c, t):
    g = rng(c["seed"] + 1)
    m = c["m"]
    x = g.uniform(t[0], t[-1], m)
    hit = g.random(m) < 0.4
    x[hit] = t[g.integers(0, len(t), hit.sum())]
    if m > 2:
        x[0], x[1] = t[0], t[-1]
    return np.clip(x, t[0], t[-1])


def verify(ctx, c, nav, cols, names):
    t = cols["gps_time"]
    x = queries(c, t)
    shape = c["shape"]
    if shape == "number":
        arg, x = float(x[0]), x[:1]
    elif shape == "2d":
        k = max(d for d in range(1, len(x) + 1) if len(x) % d == 0 and d * d <= len(x))
        arg = laid(x.reshape(k, -1) if c["tall"] else x.reshape(-1, k), c["seed"])
    else:
        arg = laid(x, c["seed"])
    a0 = np.array(arg)
    want = {k: np.interp(x, t, v) for k, v in cols.items()}
    size = {k: 1e-9 * (np.abs(v).max() + 1) for k, v in cols.items()}

    def put(v):
        return v[0] if shape == "number" else v.reshape(np.shape(arg))
    x_, y_, z_, r_, p_, h_ = names
    for k, m in ((y_, nav.get_world_ys), (x_, nav.get_world_xs), (z_, nav.get_alts), (r_, nav.get_rolls), (p_, nav.get_pitches), (h_, nav.get_headings)):
        got = m(arg)
        ctx.check(got is not None, "%s: no answer within the records" % m.__name__)
        # the times are large numbers: their spacing limits how well the position between two of them is known
        dt = np.diff(t).min()
        tol = size[k] + np.abs(cols[k]).max() * 8 * np.spacing(abs(t[-1])) / dt
        ctx.close_to(got, put(want[k]), m.__name__, rtol=0, atol=tol)
    rec = nav.get_nav_records(arg)
    flat = [rec] if shape == "number" else np.asarray(rec).ravel()
    ctx.equal(np.shape(rec) if shape != "number" else (), np.shape(arg), "shape of the records")
    for i in sorted({*range(0, len(flat), max(1, len(flat) // 40)), len(flat) - 1}):
        r = flat[i]
        ctx.equal(sorted(r), sorted(cols), "quantities of a record")
        for k in cols:
            tol = size[k] + np.abs(cols[k]).max() * 8 * np.spacing(abs(t[-1])) / np.diff(t).min()
            ctx.close_to(r[k], want[k][i], "record %d: %s" % (i, k), rtol=0, atol=tol)
    ctx.equal_arrays(arg, a0, "the caller's times")
    ctx.equal(nav.get_num_records(), len(t), "number of records")
    # outside the records there is no answer
    for bad in (t[0] - c["out"], t[-1] + c["out"]):
        b = np.array(arg, dtype=float)
        if shape == "number":
            b = float(bad)
        else:
            b = laid(b, c["seed"] // 7)
            b[tuple(d - 1 for d in b.shape) if c["tall"] else (0,) * b.ndim] = bad
        for m in (nav.get_world_ys, nav.get_world_xs, nav.get_alts, nav.get_rolls, nav.get_pitches, nav.get_headings, nav.get_nav_records):
            ctx.check(m(b) is None, "%s: an answer outside the records" % m.__name__)
    ctx.label(shape, "records:%s" % ("2" if len(t) == 2 else "few" if len(t) < 10 else "many"))
    ctx.nontrivial(len(t) > 2 and len(x) > 1)


def same_projection(ctx, nav, c):
    import pyproj
    ref = pyproj.Proj(proj="utm", zone=c["zone"], ellps="WGS84") if c["zone"] else pyproj.Proj(proj="merc", ellps="WGS84")
    lon, lat = -183 + 6 * (c["zone"] or 31) + 1.3, 41.7
    ctx.close_to(nav.get_projection()(lon, lat), ref(lon, lat), "projection", rtol=0, atol=1e-3)


base = dict(seed=seeds(), t0=q(0, 604000), even=st.booleans(), m=side(24, 300), shape=st.sampled_from(["number", "1d", "2d"]), tall=st.booleans(), out=st.sampled_from([1e-3, 1.0, 1e5]),
            zone=st.one_of(st.none(), uint(1, 60)))


def args(c):
    return ("utm", c["zone"], "WGS84", "WGS84") if c["zone"] else ("merc", c["zone"], "WGS84", "WGS84")


@sub(P, "sbet", fixed(n=side(40, 6000, 2), **base), quick=300, rule="more than two records and more than one query")
def sbet(c, ctx):
    """SBET navigation: every quantity, interpolated linearly between the records around a time"""
    F = factory()
    cols = table(c, c["n"], SNAKE)
    f = ctx.path("a b.sbet")
    np.stack([cols[k] for k in SNAKE], axis=1).astype("<f8").tofile(f)
    nav = F.from_applanix_sbet_file(f, *args(c))
    ctx.equal(nav.get_record_length(), 17, "quantities per record")
    same_projection(ctx, nav, c)
    verify(ctx, c, nav, cols, ["x", "y", "z", "roll", "pitch", "azimuth"])


junk = st.lists(st.tuples(side(40, 1500, 0), st.sampled_from(["", "# comment", "ID TIME EASTING NORTHING ELLIPSOID HEIGHT OMEGA PHI KAPPA LAT LONG", "(time in Sec, distance in Meters, position in Degrees, orientation in Degrees, lat/long in Degrees)",
                                                       "cut", "cut", "word"]), uint(1, 9)), max_size=4)


@sub(P, "eo", fixed(n=side(40, 1500, 2), junk=junk, last=st.booleans(), tabs=st.booleans(), **base), quick=500, rule="more than two records and more than one query")
def eo(c, ctx):
    """exterior orientation files: the complete lines are the records, whatever headers, comments and cut lines lie between"""
    F = factory()
    cols = table(c, c["n"], EO)
    sep = "\t" if c["tabs"] else "   "
    L = [sep.join(["img_%04d" % i] + ["%.6f" % cols[k][i] for k in EO]) for i in range(c["n"])]
    g = rng(c["seed"] + 2)
    for at, what, k in c["junk"]:
        if what in ("cut", "word"):
            parts = ["img_x"] + ["%.6f" % v for v in g.uniform(0, 1e5, 9)]
            if what == "cut":
                parts = parts[:k]
            else:
                parts[k] = "n/a"
            what = sep.join(parts)
            ctx.label("broken line")
        L.insert(at % (len(L) + 1), what)
    f = ctx.path("eo.txt")
    with open(f, "w") as o:
        o.write("\n".join(L) + ("\n" if c["last"] else ""))
    nav = F.from_applanix_eo_file(f, *args(c))
    same_projection(ctx, nav, c)
    verify(ctx, c, nav, cols, ["easting", "northing", "height", "omega", "phi", "kappa"])


again(P, "sbet", ("n", "t0", "zone"), 40)
again(P, "eo", ("n", "t0", "zone"), 60)
