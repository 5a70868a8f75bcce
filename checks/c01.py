"""C01  world <-> pixel round trip of every point calculator."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds

P = "C01"
results_stay(P)
assume_note(P, "frame cameras are above the terrain they see and look within 20 deg roll/pitch of nadir with a half "
               "field of view of at most 25 deg; RPC polynomials have realistic (dominant first order) coefficients")


CRS_NAMES = ["native", "native", "native", "4326", "4326", "3857", "3857", "feet", "lcc", "slanted", "next_zone"]


def world_crs(name, c=None):
    """a CRS to name places in: none, the usual two, or one local to the camera (feet, azimuthal, neighbouring zone)"""
    from pyproj import Proj
    from resippy.photogrammetry import crs_defs
    if name in ("native", "4326", "3857"):
        return {"native": None, "4326": crs_defs.PROJ_4326, "3857": crs_defs.PROJ_3857}[name]
    return world_crs_at(name, *lonlat_of(c))


def world_crs_at(name, lon, lat):
    from pyproj import Proj
    if name in ("native", "4326", "3857"):
        return world_crs(name)
    if name == "feet":
        return Proj("+proj=tmerc +lat_0=%.1f +lon_0=%.1f +k=0.9999 +x_0=500000 +y_0=0 +datum=WGS84 +units=us-ft" % (lat, lon),
                    preserve_units=True)
    if name in ("lcc", "slanted"):
        # (grid north of the slanted one is far from true north)
        par = math.copysign(max(abs(lat), 5.0), lat)
        return Proj("+proj=lcc +lat_1=%.1f +lat_0=%.1f +lon_0=%.1f +x_0=1000 +y_0=2000 +datum=WGS84 +units=m" % (par, par, lon - (0.5 if name == "lcc" else 35.0)))
    zone = int((lon + 180) // 6) % 60 + 1
    return cams.utm_proj(zone % 60 + 1, lat < 0)


def lonlat_of(c):
    from harness.rasters import transformer
    from resippy.photogrammetry import crs_defs
    if c["kind"] == "rpc":
        return c["lon_off"], c["lat_off"]
    if c["kind"] == "geotiff" and c["crs"] == "4326":
        return c["lon"], c["lat"]
    return transformer(cams.proj_of(c), crs_defs.PROJ_4326).transform(c["X"], c["Y"])


def px_slack(c, p, xy_world_err):
    return xy_world_err


def _pixels(c, p):
    """pixel positions, including non-integer ones, covering the frame"""
    ref = cams.reference(c)
    X, Y, Z = cams.ground_points(c, p)
    x, y = ref.project(X, Y, Z)
    return ref, X, Y, Z, x, y


def gsd_matrix(ref, c, X, Y, Z):
    h = 1e-6 if (c["kind"] == "rpc") else (1e-7 if c["kind"] == "geotiff" and c["crs"] == "4326" else 1e-2)
    J = cams.jacobian(ref, X, Y, Z, h, h)                  # 2,2,n  pixel per native unit
    return np.linalg.inv(np.moveaxis(J, 2, 0))             # n,2,2 native unit per pixel


case_rt = fixed(cam=cams.any_camera_case(), pts=cams.points_case(), crs=st.sampled_from(CRS_NAMES),
                thr=st.sampled_from([0.5, 0.01, 0.01, 1e-3, 1e-5]))


@sub(P, "pixel_ground_pixel", case_rt, quick=900, rule="at least one image point away from the principal point; tilt, "
     "heading, distortion or rational terms present")
def pixel_ground_pixel(case, ctx):
    c, p = case["cam"], case["pts"]
    ref, X, Y, Z, x, y = _pixels(c, p)
    pc = cams.build(c)
    crs = world_crs(case["crs"], c)
    exact = c["kind"] == "geotiff"
    thr = case["thr"]
    args = {} if exact else {"pixel_error_threshold": thr}
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(x.copy(), y.copy(), Z.copy(), world_proj=crs, **args)
    ctx.check(np.shape(lon) == np.shape(x) and np.shape(lat) == np.shape(y), "shape of the returned ground points")
    ctx.check(np.all(np.isfinite(lon)) and np.all(np.isfinite(lat)), "ground points are not finite: %r %r" % (lon, lat))
    bx, by = pc.lon_lat_alt_to_pixel_x_y(np.array(lon), np.array(lat), Z.copy(), world_proj=crs)
    G = gsd_matrix(ref, c, X, Y, Z)
    gsd = np.linalg.svd(G, compute_uv=False).min()         # ground units per pixel, in the finest direction
    # a coordinate survives CRS conversion (and subtraction of large map coordinates) to about 1e-8 m / 1e-13 deg
    unit = 1.0 if cams.proj_of(c).crs.is_projected else 1.0 / 111000.0
    noise = (2e-8 if crs is None else 1e-5) * unit / gsd
    tol = (0 if exact else thr) + noise + 1e-6 * (np.abs(np.concatenate([x, y])).max() + 1) * 1e-3
    err = max(np.abs(bx - x).max(), np.abs(by - y).max())
    ctx.check(err <= tol, "pixel -> ground -> pixel moved by %g pixels (allowed %g)" % (err, tol))
    ctx.label(c["kind"], "crs:" + case["crs"])
    ctx.nontrivial(np.abs(x - x.mean()).max() > 1 or len(x) == 1)


case_gt = fixed(cam=cams.any_camera_case(), pts=cams.points_case(), crs=st.sampled_from(CRS_NAMES))


@sub(P, "ground_pixel_ground", case_gt, quick=900, rule="ground points spread over the footprint of the camera")
def ground_pixel_ground(case, ctx):
    c, p = case["cam"], case["pts"]
    ref = cams.reference(c)
    X, Y, Z = cams.ground_points(c, p)
    pc = cams.build(c)
    crs = world_crs(case["crs"], c)
    thr = 1e-4
    x, y = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy())
    ctx.check(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "pixels are not finite")
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(np.array(x), np.array(y), Z.copy(), world_proj=crs, pixel_error_threshold=thr)
    if crs is not None:
        lon, lat = to_native(lon, lat, crs, pc.get_projection())
    G = gsd_matrix(ref, c, X, Y, Z)
    foot = np.sqrt((G ** 2).sum(axis=(1, 2)))              # ground units per pixel, worst direction
    unit = 1.0 if cams.proj_of(c).crs.is_projected else 1.0 / 111000.0
    noise = (1e-6 if crs is None else 1e-4) * unit
    exact = c["kind"] == "geotiff"
    tol = foot * ((0 if exact else 2 * thr) + 1e-9 * (np.abs(x) + np.abs(y) + 1)) + noise
    err = np.hypot(lon - X, lat - Y)
    ctx.check(np.all(err <= tol), "ground -> pixel -> ground moved by %r (allowed %r)" % (err.max(), tol[err.argmax()]))
    ctx.label(c["kind"], "crs:" + case["crs"])
    ctx.nontrivial(len(X) > 1)


def to_native(x, y, src, dst):
    from harness.rasters import transformer
    return transformer(src, dst).transform(np.asarray(x), np.asarray(y))


# many points in one call: whatever is done block-wise, or only from some size on, must not show
big = lambda base: st.tuples(base, logq(300, 40000)).map(lambda t: {**t[0], "pts": {**t[0]["pts"], "n": int(t[1])}})
sub(P, "many_pixels", big(case_rt), quick=30, rule="at least 1000 points in one call")(pixel_ground_pixel)
sub(P, "many_places", big(case_gt), quick=30, rule="at least 1000 points in one call")(ground_pixel_ground)


# one use after another
again(P, "pixel_ground_pixel", ("pts", "crs"), 48, most=3)
again(P, "ground_pixel_ground", ("cam",), 48, most=3)
