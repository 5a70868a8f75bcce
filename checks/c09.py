"""C09  Casting pixels onto an elevation model."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams, dems
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, logq, q, rng, seeds
from checks.c01 import CRS_NAMES, to_native, world_crs

P = "C09"
results_stay(P)
assume_note(P, "relief is at most 15 % of the flying height (20 % of the height scale for rational models); the first hit "
               "is judged up to obstacles narrower than the sampling distance")


def scene(c, s, rel):
    """centre, size, relief, metres per native unit"""
    if c["kind"] == "geotiff":
        g = cams.geotiff_geot(c)
        X, Y = cams.RefAffine(c).ground(c["nx"] / 2, c["ny"] / 2)
        size = max(abs(g[1]) * c["nx"], abs(g[5]) * c["ny"])
        per = 111000.0 if c["crs"] == "4326" else 1.0
        return dems.Surface(s, X, Y, size * per, 50.0 * rel, 100.0, per, per)
    if c["kind"] == "rpc":
        per = 111000.0
        return dems.Surface(s, c["lon_off"], c["lat_off"], 0.5 * per * max(c["lon_scale"], c["lat_scale"]),
                            0.2 * rel * c["h_scale"], c["h_off"], per, per)
    X, Y, Z = cams.ground_points(c, {"n": 8, "pseed": 1, "alt": "const"})
    size = max(np.ptp(X), np.ptp(Y), 0.1 * c["H"])
    return dems.Surface(s, X.mean(), Y.mean(), size, 0.15 * rel * c["H"], c["z0"])


case_ray = fixed(cam=st.one_of(cams.frame_camera_case(), cams.frame_camera_case(), cams.rpc_case(), cams.geotiff_case()),
                 surf=dems.surface_case(), rel=q(0.02, 1.0), shape=st.sampled_from(["1d", "2d"]), n=st.integers(1, 4),
                 pseed=seeds(), steps=st.integers(2, 60), crs=st.sampled_from(CRS_NAMES),
                 default_step=st.booleans(), bounds=st.sampled_from(["dem", "dem", "given", "wide"]))


def pixels(c, case):
    g = rng(case["pseed"])
    n = case["n"] * (2 if case["shape"] == "2d" else 1)
    if c["kind"] == "geotiff":
        return g.uniform(0, c["nx"], n), g.uniform(0, c["ny"], n)
    if c["kind"] == "rpc":
        return (c["samp_off"] + g.uniform(-0.7, 0.7, n) * c["samp_scale"],
                c["line_off"] + g.uniform(-0.7, 0.7, n) * c["line_scale"])
    x, y = g.uniform(0, c["nx"], n), g.uniform(0, c["ny"], n)
    if case["pseed"] % 5 == 0:
        x[0], y[0] = c["nx"] / 2.0, c["ny"] / 2.0
    return x, y


@sub(P, "first_hit", case_ray, quick=500, rule="terrain that is not flat, seen by a camera whose rays are slanted")
def first_hit(case, ctx):
    """the point returned lies on the terrain, on the pixel's ray, and nothing on the ray before it blocks the view"""
    c = case["cam"]
    S = scene(c, case["surf"], case["rel"])
    pc = cams.build(c)
    cast_and_judge(case, ctx, c, S, pc, dems.as_dem(S, pc.get_projection()))


def cast_and_judge(case, ctx, c, S, pc, dem):
    proj = pc.get_projection()
    ref = cams.reference(c)
    x, y = pixels(c, case)
    shp = (2, case["n"]) if case["shape"] == "2d" else (case["n"],)
    lo, hi = S.bounds()
    kw = {}
    if case["bounds"] == "given":
        kw = dict(dem_highest_alt=hi, dem_lowest_alt=lo)
    elif case["bounds"] == "wide":
        kw = dict(dem_highest_alt=hi + 0.3 * (hi - lo) + 2, dem_lowest_alt=lo - 0.2 * (hi - lo) - 2)
        hi, lo = kw["dem_highest_alt"], kw["dem_lowest_alt"]
    pad = 0.01 * (hi - lo) if hi > lo else 1.0
    n = len(x)
    # ends of the rays by the code's own pixel -> ground at known height (decided by C01)
    top = np.array(pc.pixel_x_y_alt_to_lon_lat(x, y, np.zeros(n) + hi + pad))
    bot = np.array(pc.pixel_x_y_alt_to_lon_lat(x, y, np.zeros(n) + lo - pad))
    if not (np.isfinite(top).all() and np.isfinite(bot).all()):
        ctx.label("solver_failed")
        return
    L = np.hypot((top - bot)[0] * S.per_x, (top - bot)[1] * S.per_y)
    if case["default_step"] and L.max() < 3000:
        d, dkw = 5.0, {}
    else:
        d = max(L.max() / case["steps"], 0.01)
        dkw = dict(dem_sample_distance=d)
    crs = world_crs(case["crs"], c)
    xq, yq = laid(x.reshape(shp), case["pseed"]), laid(y.reshape(shp), case["pseed"] // 7)
    lon, lat, alt = pc.pixel_x_y_to_lon_lat_alt(xq, yq, dem, world_proj=crs, **kw, **dkw)
    for v, nm in ((lon, "longitudes"), (lat, "latitudes"), (alt, "altitudes")):
        ctx.equal(np.shape(v), shp, "shape of the %s" % nm)
        ctx.check(np.isfinite(v).all(), "%s not finite" % nm)
    ctx.equal_arrays(xq, x.reshape(shp), "the caller's pixel x")
    ctx.equal_arrays(yq, y.reshape(shp), "the caller's pixel y")
    lon, lat, alt = np.ravel(lon), np.ravel(lat), np.ravel(alt)
    if crs is not None:
        lon, lat = to_native(lon, lat, crs, proj)
    # along each ray: fraction t from the top (0) to the bottom (1)
    w_alt = (hi + pad - alt) / (hi - lo + 2 * pad)
    ctx.check(np.all((w_alt >= -1e-9) & (w_alt <= 1 + 1e-9)), "altitude %r outside the range of the terrain" % alt)
    on_x, on_y = top[0] + (bot - top)[0] * w_alt, top[1] + (bot - top)[1] * w_alt
    foot = 0.06 * np.sqrt((np.linalg.inv(np.moveaxis(cams.jacobian(ref, on_x, on_y, alt, *([1e-6 if S.per_x > 1 else 1e-2] * 2)),
                                                     2, 0)) ** 2).sum(axis=(1, 2)))
    slack_native = foot + 1e-3 / S.per_x
    # (a) on the ray
    off = np.hypot(lon - on_x, lat - on_y)
    ctx.check(np.all(off <= slack_native), "the point is not on its pixel's ray: off by %r (allowed %r)" % (off, slack_native))
    rx, ry = ref.project(lon, lat, alt)
    bend_x, bend_y = ref.project(on_x, on_y, alt)         # straight chord against the camera's true ray
    tol = 0.1 + np.hypot(bend_x - x, bend_y - y)
    ctx.check(np.all(np.hypot(rx - x, ry - y) <= tol * 1.5 + 1e-6 * (np.abs(x) + np.abs(y))),
              "seen again, the point is %r pixels from where it was asked for" % np.hypot(rx - x, ry - y))
    # (b) on the terrain, up to the linear interpolation between two samples of it
    for i in (range(n) if n <= 8 else rng(case["pseed"] + 1).choice(n, 8, replace=False)):
        di = min(d / L[i], 1.0) if L[i] > 0 else 1.0      # sampling interval as a fraction of the ray
        tt = np.clip(w_alt[i] + np.linspace(-di, di, 81), 0, 1)
        zz = S(top[0, i] + (bot - top)[0, i] * tt, top[1, i] + (bot - top)[1, i] * tt)
        # worst departure of the terrain from any chord over one interval
        half = zz.reshape(-1)
        dep = max(np.ptp(half[k:k + 41] - np.linspace(half[k], half[min(k + 40, 80)], len(half[k:k + 41])))
                  for k in range(0, 41, 8))
        slope = np.abs(np.diff(zz)).max() / max(L[i] * np.diff(tt).max(), 1e-9)
        steep = (hi - lo + 2 * pad) / L[i] if L[i] > 0 else np.inf     # descent of the ray per horizontal metre
        amp = 1.0 + slope / max(steep, 1e-9) if np.isfinite(steep) else 1.0
        allowed = 1.5 * dep * amp + slope * 2 * slack_native[i] * S.per_x + 1e-3 + 1e-6 * abs(hi)
        err = abs(S(lon[i], lat[i]) - alt[i])
        ctx.check(err <= allowed, "terrain at the point is %r, altitude reported %r (allowed difference %r)"
                  % (float(S(lon[i], lat[i])), float(alt[i]), float(allowed)))
        # (c) nothing in the way: no stretch longer than the sampling distance before it is above the ray
        m = int(min(4000, max(50, 20 * L[i] / d)))
        t = np.linspace(0, 1, m)
        t = t[t < w_alt[i] - di * 1.02]
        if len(t) > 2:
            above = S(top[0, i] + (bot - top)[0, i] * t, top[1, i] + (bot - top)[1, i] * t) > \
                hi + pad - t * (hi - lo + 2 * pad) + slope * slack_native[i] * S.per_x + 1e-3
            run = longest(above) * (L[i] / (m - 1))
            ctx.check(run <= 1.1 * d + 2 * L[i] / (m - 1), "the terrain blocks the ray %g m long before the point returned" % run)
            if above.any():
                ctx.label("thin_obstacle")
    ctx.label(c["kind"], S.c["kind"], case["crs"])
    ctx.nontrivial(S.c["kind"] != "flat" and L.max() > d)


def longest(mask):
    best = cur = 0
    for v in mask:
        cur = cur + 1 if v else 0
        best = max(best, cur)
    return best


flat = fixed(cam=cams.any_camera_case(), z=q(-0.1, 0.1), n=st.integers(1, 6), pseed=seeds(), shape=st.sampled_from(["1d", "2d"]))


@sub(P, "constant_terrain", flat, quick=250, rule="a height that is not zero")
def constant_terrain(case, ctx):
    """on level terrain, casting a ray and asking for that height directly give the same place"""
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    c = case["cam"]
    if c["kind"] == "rpc":
        z = c["h_off"] + 5 * case["z"] * c["h_scale"]
    elif c["kind"] == "geotiff":
        z = 1000 * case["z"]
    else:
        z = c["z0"] + case["z"] * c["H"]
    pc = cams.build(c)
    x, y = pixels(c, case)
    shp = (2, case["n"]) if case["shape"] == "2d" else (case["n"],)
    lon, lat, alt = pc.pixel_x_y_to_lon_lat_alt(x.reshape(shp), y.reshape(shp), DemFactory.constant_elevation(z))
    ctx.equal((np.shape(lon), np.shape(lat), np.shape(alt)), (shp, shp, shp), "shapes")
    ctx.close_to(np.ravel(alt), np.zeros(len(x)) + z, "altitude", rtol=1e-9, atol=1e-6)
    rx, ry = cams.reference(c).project(np.ravel(lon), np.ravel(lat), np.zeros(len(x)) + z)
    err = np.hypot(rx - x, ry - y)
    ctx.check(np.all(err <= 0.05 + 1e-6 * (np.abs(x) + np.abs(y))), "the point is %r pixels off" % err)
    ctx.label(c["kind"])
    ctx.nontrivial(case["z"] != 0)


raster = fixed(cam=st.one_of(cams.pinhole_case(), cams.pix4d_case()), surf=dems.surface_case(), rel=q(0.1, 1.0), n=st.integers(1, 6), pseed=seeds(),
               steps=st.integers(5, 60), dem_crs=st.sampled_from(["native", "4326"]), cells=st.integers(6, 40),
               method=st.sampled_from(["bilinear", "nearest"]))


@sub(P, "raster_terrain", raster, quick=150, rule="a DEM file in another CRS than the camera's, or slanted rays")
def raster_terrain(case, ctx):
    """the same with a DEM read from a file, in the camera's CRS or in longitude / latitude"""
    from harness.rasters import write_gtiff
    from pyproj import Transformer
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    from resippy.photogrammetry import crs_defs
    c = case["cam"]
    S = scene(c, case["surf"], case["rel"])
    pc = cams.build(c)
    proj = pc.get_projection()
    f = ctx.path("dem.tif")
    R = S.size * 1.5
    if case["dem_crs"] == "native":
        box = (S.cx - R, S.cx + R, S.cy - R, S.cy + R)
        wkt = proj.crs.to_wkt("WKT1_GDAL")
        to = None
    else:
        to = Transformer.from_proj(proj, crs_defs.PROJ_4326, always_xy=True)
        lo, la = to.transform(np.array([S.cx - R, S.cx + R, S.cx - R, S.cx + R]), np.array([S.cy - R, S.cy - R, S.cy + R, S.cy + R]))
        box = (lo.min(), lo.max(), la.min(), la.max())
        from harness.rasters import wkt as w
        wkt = w({"kind": "4326"})
    k = case["cells"]
    gx, gy = (box[1] - box[0]) / k, (box[3] - box[2]) / k
    gt = [box[0], gx, 0.0, box[3], 0.0, -gy]
    jj, ii = np.meshgrid(np.arange(k), np.arange(k))
    X, Y = gt[0] + jj * gx, gt[3] - ii * gy
    if to is not None:
        X, Y = to.transform(X, Y, direction="INVERSE")
    Z = S(X, Y).astype("float64")
    write_gtiff(f, Z, gt, wkt)
    dem = DemFactory.from_gtiff_file(f, interpolation_method=case["method"])
    x, y = pixels(c, {**case, "shape": "1d"})
    d = max(2.2 * S.relief * case["rel"] / case["steps"], 0.05)
    lon, lat, alt = pc.pixel_x_y_to_lon_lat_alt(x, y, dem, dem_sample_distance=d)
    rx, ry = cams.reference(c).project(lon, lat, alt)
    err = np.hypot(rx - x, ry - y)
    ctx.check(np.all(err <= 0.1), "seen again, the point is %r pixels from where it was asked for" % err)
    # the altitude is one the raster has within one cell and one sampling step of the point
    U, V = (lon, lat) if to is None else to.transform(lon, lat)
    px, py = (np.asarray(U) - gt[0]) / gx, (gt[3] - np.asarray(V)) / gy
    unit = gx * (1.0 if to is None else 111000.0 * max(0.05, math.cos(math.radians(gt[3]))))
    unit = min(unit, gy * (1.0 if to is None else 111000.0))
    r = 1.0 + 1.1 * d / unit
    for i in range(len(x)):
        a, b = int(np.floor(px[i] - r)), int(np.ceil(px[i] + r)) + 1
        e, g2 = int(np.floor(py[i] - r)), int(np.ceil(py[i] + r)) + 1
        cells = Z[np.clip(e, 0, k - 1):np.clip(g2, 1, k), np.clip(a, 0, k - 1):np.clip(b, 1, k)]
        ctx.check(cells.min() - 0.01 - 1e-6 * abs(alt[i]) <= alt[i] <= cells.max() + 0.01 + 1e-6 * abs(alt[i]),
                  "altitude %r is none the DEM has around the point (%r to %r)" % (alt[i], cells.min(), cells.max()))
    if case["method"] == "bilinear":
        got = dem.get_elevations(lon, lat, proj)
        jump = max(np.abs(np.diff(Z, axis=0)).max(), np.abs(np.diff(Z, axis=1)).max())
        allowed = 2.5 * jump * min(1.0, d / unit) * 2 + 0.01 + 1e-6 * np.abs(alt)
        ctx.check(np.all(np.abs(got - alt) <= allowed), "height of the DEM at the point %r, altitude reported %r" % (got, alt))
    ctx.label(case["dem_crs"], case["method"])
    ctx.nontrivial(S.c["kind"] != "flat")


# many pixels in one call
many = st.tuples(case_ray, logq(100, 6000)).map(lambda t: {**t[0], "n": int(t[1])})
sub(P, "many_rays", many, quick=25, rule="terrain that is not flat, slanted rays")(first_hit)


talk = fixed(first=case_ray, surfs=st.lists(fixed(surf=dems.surface_case(), rel=q(0.02, 1.0)), min_size=1, max_size=2),
             steps=st.lists(fixed(k=st.integers(0, 2), n=st.integers(1, 3), pseed=seeds(), shape=st.sampled_from(["1d", "2d"]),
                                  steps=st.integers(2, 60), crs=st.sampled_from(CRS_NAMES), default_step=st.booleans(),
                                  bounds=st.sampled_from(["dem", "dem", "given", "wide"]), same_pixels=st.booleans()),
                            min_size=2, max_size=5))


@sub(P, "conversations", talk, quick=80, rule="one camera over at least two terrains")
def conversations(case, ctx):
    """one camera asked about several terrains in turn, in any CRS and with any sampling"""
    c = case["first"]["cam"]
    pc = cams.build(c)
    scenes = [scene(c, s["surf"], s["rel"]) for s in [case["first"]] + case["surfs"]]
    models = [dems.as_dem(S, pc.get_projection()) for S in scenes]
    for k, s in enumerate(case["steps"]):
        one = {**case["first"], **s}
        if s["same_pixels"]:
            one["pseed"], one["n"] = case["first"]["pseed"], case["first"]["n"]
        i = s["k"] % len(scenes)
        cast_and_judge(one, ctx, c, scenes[i], pc, models[i])
    ctx.is_nontrivial = len({s["k"] % len(scenes) for s in case["steps"]}) > 1


def same_zone(c):
    return {**c, "zone": 18, "south": False}


@sub(P, "bands_of_a_sensor", fixed(first=case_ray, cams=st.lists(cams.frame_camera_case().map(same_zone), min_size=2, max_size=4),
                                   steps=st.lists(fixed(band=st.integers(0, 3), n=st.integers(1, 3), pseed=seeds(), shape=st.sampled_from(["1d", "2d"]), steps=st.integers(2, 60),
                                                        crs=st.sampled_from(CRS_NAMES), bounds=st.sampled_from(["dem", "dem", "given", "wide"])), min_size=1, max_size=3)),
     quick=60, rule="at least two bands asked about")
def bands_of_a_sensor(case, ctx):
    """a sensor with a camera for each band: the place a band's pixel sees, over one terrain"""
    from checks.c04 import one_sensor
    base = case["cams"][0]
    cs = [{**k, "X": base["X"], "Y": base["Y"], "z0": base["z0"], "H": base["H"]} for k in case["cams"]]
    pcs = one_sensor(cs)
    S = scene(base, case["first"]["surf"], case["first"]["rel"])
    dem = dems.as_dem(S, pcs[0].get_projection())
    for s in case["steps"]:
        b = s["band"] % len(cs)
        cast_and_judge({**case["first"], **s, "cam": cs[b]}, ctx, cs[b], S, pcs[b], dem)
    ctx.is_nontrivial = len({s["band"] % len(cs) for s in case["steps"]}) > 1


# one use after another
again(P, "first_hit", ("n", "pseed"), 40, most=3)
again(P, "raster_terrain", ("cam", "n", "pseed"), 24, most=3)
