"""C13  Images that carry the ground position of every pixel."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams, dems, scenes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import angle_deg, fixed, laid, logq, q, rng, seeds
from checks.c01 import gsd_matrix, world_crs_at
from checks.c10 import convert, at_zero

P = "C13"
results_stay(P)
assume_note(P, "positions between pixels are recovered to one pixel on near-isotropic grids; images have at least 6 pixels")


def table(case):
    """ground positions of a gently curved, near-isotropic pixel grid: lon, lat arrays, and the exact forward map"""
    nx, ny = case["nx"], case["ny"]
    s = case["gsd"] * (1e-5 if case["crs"] == "4326" else 1.0)
    x0, y0 = (case["u"] * 300 - 150, case["v"] * 120 - 60) if case["crs"] == "4326" else (3e5 + 4e5 * case["u"], 1e6 + 6e6 * case["v"])
    a = math.radians(case["az"])

    def place(x, y):
        w = case["warp"] * 0.1
        u = x + w * np.sin(0.3 * y)
        v = (y + w * np.sin(0.3 * x)) * case["asp"]
        return x0 + s * (u * math.cos(a) - v * math.sin(a)), y0 + s * (u * math.sin(a) + v * math.cos(a))
    jj, ii = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    lon, lat = place(jj, ii)
    return lon, lat, place


def crs_of(case):
    from harness.rasters import make_proj
    return make_proj({"kind": "4326"}) if case["crs"] == "4326" else cams.utm_proj(18, False)


tab = fixed(nx=st.integers(3, 24), ny=st.integers(3, 24), nb=st.integers(1, 3), crs=st.sampled_from(["utm", "4326"]), gsd=logq(0.05, 30), u=q(0, 1), v=q(0, 1), az=angle_deg(180),
            asp=q(0.75, 1.3), warp=q(-1, 1), alts=st.sampled_from(["array", "number", "whole number"]), z=q(-100, 3000), iseed=seeds(), n=st.integers(1, 8), shape=st.sampled_from(["scalar", "1d", "2d"]),
            world=st.sampled_from(["native"] * 4 + ["3857", "3857", "4326", "feet", "lcc", "slanted", "next_zone"]), dtype=st.sampled_from(scenes.DT))


def make(case):
    from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
    lon, lat, place = table(case)
    g = rng(case["iseed"])
    alts = g.uniform(0, 100, lon.shape) + case["z"] if case["alts"] == "array" else case["z"]
    if case["alts"] == "whole number":
        alts = [int, np.int64, np.int16, np.float32][case["iseed"] % 4](round(alts))
    data = scenes.pixels_of({"iseed": case["iseed"], "content": "smooth", "dtype": case["dtype"], "nb": case["nb"]}, case)
    img = IgmImage.from_params(data.copy(), laid(lon, case["iseed"] // 3), laid(lat, case["iseed"] // 3), alts if np.isscalar(alts) else laid(alts, case["iseed"] // 5), case["nb"], crs_of(case))
    return img, lon, lat, alts, data, place


@sub(P, "position_table", tab, quick=500, rule="more than one position, or a foreign CRS")
def position_table(case, ctx):
    """pixel -> ground reads the table, ground -> pixel finds the pixel"""
    img, lon, lat, alts, data, place = make(case)
    pc = img.get_point_calculator()
    ctx.equal_arrays(pc.lon_image, lon, "longitudes")
    ctx.equal_arrays(pc.lat_image, lat, "latitudes")
    ctx.equal_arrays(pc.alt_image, np.zeros(lon.shape) + alts, "altitudes")
    ctx.equal_arrays(img.get_image_data(), data, "pixels")
    md = img.get_metadata()
    ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (case["nx"], case["ny"], case["nb"]), "metadata")
    ctx.equal(pc.get_projection().srs, crs_of(case).srs, "projection")
    for b in range(case["nb"]):
        ctx.equal_arrays(img.get_image_band(b), data[:, :, b], "band %d" % b)
    g = rng(case["iseed"] + 1)
    crs = crs_of(case)
    from harness.rasters import make_proj
    world = None
    if case["world"] != "native":
        lon0, lat0 = convert([lon.mean()], [lat.mean()], crs, make_proj({"kind": "4326"}))
        world = world_crs_at(case["world"], float(lon0[0]), float(lat0[0]))
    shp = {"scalar": (1,), "1d": (case["n"],), "2d": (2, case["n"])}[case["shape"]]
    jx, jy = g.integers(0, case["nx"], shp), g.integers(0, case["ny"], shp)
    qx, qy = (int(jx[0]), int(jy[0])) if case["shape"] == "scalar" else (laid(jx, case["iseed"]), laid(jy, case["iseed"] // 7))
    X, Y = pc.pixel_x_y_alt_to_lon_lat(qx, qy, 0 if case["shape"] == "scalar" else np.zeros(shp), world_proj=world)
    wx, wy = lon[jy, jx], lat[jy, jx]
    if world is not None:
        wx, wy = convert(wx.ravel(), wy.ravel(), crs, world)
        wx, wy = wx.reshape(shp), wy.reshape(shp)
    t = case["gsd"] * (1e-8 if (crs if world is None else world).crs.is_geographic else 1e-3)
    ctx.close_to(np.reshape(X, shp), wx, "longitude of pixels", rtol=1e-12, atol=t)
    ctx.close_to(np.reshape(Y, shp), wy, "latitude of pixels", rtol=1e-12, atol=t)
    # back: exactly at pixels
    bx, by = pc.lon_lat_alt_to_pixel_x_y(X, Y, 0 if case["shape"] == "scalar" else np.zeros(shp), world_proj=world)
    if case["shape"] != "scalar":
        ctx.equal((np.shape(bx), np.shape(by)), (shp, shp), "shape of the pixels")
    # (distances below 1e-8 native units count as none)
    tol = (0.03 if world is None else 0.05) + (2e-7 / (case["gsd"] * 1e-5) if case["crs"] == "4326" else 0)
    ctx.close_to(np.reshape(bx, shp), jx.astype(float), "pixel x of a pixel's own place", rtol=0, atol=tol)
    ctx.close_to(np.reshape(by, shp), jy.astype(float), "pixel y of a pixel's own place", rtol=0, atol=tol)
    # and between pixels
    fx, fy = g.uniform(0, case["nx"] - 1, shp), g.uniform(0, case["ny"] - 1, shp)
    X, Y = place(fx, fy)
    if world is not None:
        X, Y = convert(X.ravel(), Y.ravel(), crs, world)
        X, Y = np.reshape(X, shp), np.reshape(Y, shp)
    if case["shape"] == "scalar":
        X, Y = float(np.ravel(X)[0]), float(np.ravel(Y)[0])
    else:
        X, Y = laid(X, case["iseed"] // 7), laid(Y, case["iseed"])
    bx, by = pc.lon_lat_alt_to_pixel_x_y(X, Y, 0.0 if case["shape"] == "scalar" else np.zeros(shp), world_proj=world)
    err = np.hypot(np.reshape(bx, shp) - fx, np.reshape(by, shp) - fy)
    ctx.check(np.all(err <= 1.0), "a place between pixels is found %g pixels off" % err.max())
    ctx.label(case["shape"], case["crs"], case["world"])
    ctx.nontrivial(case["shape"] != "scalar" or world is not None)


sub(P, "large_table", tab.map(lambda k: {**k, "nx": 20 + 5 * k["nx"], "ny": 140 - 5 * k["ny"], "nb": 1, "n": 25 * k["n"]}), quick=16, rule="more than one position, or a foreign CRS")(position_table)


@sub(P, "large_ortho_of_table", tab.map(lambda k: {**k, "nx": 20 + 2 * k["nx"], "ny": 70 - 2 * k["ny"]}), quick=16, rule="at least ten output pixels judged")
@sub(P, "ortho_of_table", tab.map(lambda c: {**c, "nx": c["nx"] + 6, "ny": c["ny"] + 6}), quick=250, rule="at least ten output pixels judged")
def ortho_of_table(case, ctx):
    """orthorectifying such an image: every output pixel shows what the pixels around its place show"""
    from resippy.photogrammetry import ortho_tools
    img, lon, lat, alts, data, place = make(case)
    kw = {"gsd_meters": case["gsd"]} if case["n"] % 2 else {}
    out = ortho_tools.create_full_ortho_gtiff_image(img, **kw)
    g = list(out.get_point_calculator().get_geot())
    got = out.get_image_data()
    ny, nx = got.shape[:2]
    ctx.equal((got.shape[2], str(got.dtype)), (case["nb"], case["dtype"]), "bands and data type")
    s = case["gsd"] * (1e-5 if case["crs"] == "4326" else 1.0)
    ctx.close_to([g[0], g[3] + ny * g[5], g[0] + nx * g[1], g[3]], [lon.min(), lat.min(), lon.max(), lat.max()], "ground covered", rtol=0, atol=0.05 * s)
    # nearest source pixel of each output pixel, by exhaustive search
    jj, ii = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    X, Y = g[0] + jj.ravel() * g[1], g[3] + ii.ravel() * g[5]
    d = (X[:, None] - lon.ravel()[None]) ** 2 + (Y[:, None] - lat.ravel()[None]) ** 2
    k = d.argmin(axis=1)
    sy, sx = np.unravel_index(k, lon.shape)
    inner = (sx >= 2) & (sy >= 2) & (sx < case["nx"] - 4) & (sy < case["ny"] - 4)
    judged = 0
    for m in np.flatnonzero(inner)[::max(1, inner.sum() // 400)]:
        win = data[sy[m] - 2:sy[m] + 3, sx[m] - 2:sx[m] + 3]
        lo, hi = win.min(axis=(0, 1)).astype(float), win.max(axis=(0, 1)).astype(float)
        v = got.reshape(-1, case["nb"])[m].astype(float)
        slack = 1.01 + 0.05 * (hi - lo)
        ctx.check(np.all((v >= lo - slack) & (v <= hi + slack)), "output pixel %d shows %r, around its place the image holds %r to %r" % (m, v, lo, hi))
        judged += 1
    ctx.nontrivial(judged >= 10)


made = fixed(scene=scenes.scene_case(kinds=cams.any_camera_case()), surf=dems.surface_case(), rel=q(0.02, 1), terrain=st.sampled_from(["surface", "none"]), steps=st.integers(3, 40),
             source=st.sampled_from(["array", "file"]), step=st.sampled_from(["given", "default"]))


@sub(P, "large_from_camera", made.map(lambda k: {**k, "large": True, "scene": {**k["scene"], "nx": 10 + 2 * k["scene"]["nx"], "ny": 90 - 2 * k["scene"]["ny"]}}), quick=20, rule="terrain that is not level")
@sub(P, "from_camera", made, quick=250, rule="terrain that is not level")
def from_camera(case, ctx):
    """made from a camera image: every pixel's position is on the pixel's sight and on the terrain"""
    from resippy.photogrammetry import ortho_tools
    s = at_zero(case["scene"], case)
    if not case.get("large"):
        s = {**s, "nx": min(s["nx"], 16), "ny": min(s["ny"], 16)}
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"] if case["terrain"] == "surface" else {**case["surf"], "kind": "flat"}, case["rel"])
    if case["terrain"] == "none":
        S.z0 = 0.0
    data = scenes.pixels_of(s, c)
    if c["kind"] == "geotiff":
        from resippy.image_objects.image_factory import ImageFactory
        img = ImageFactory.geotiff.from_numpy_array(data.copy(), cams.geotiff_geot(c), cams.proj_of(c))
    else:
        img = scenes.make_image(s, c, data, ctx, case["source"])
    jj, ii = np.meshgrid(np.arange(c["nx"]), np.arange(c["ny"]))
    x, y = jj.ravel().astype(float), ii.ravel().astype(float)
    ref = cams.reference(c)
    lo, hi = S.bounds()
    n = len(x)
    native = cams.proj_of(c)
    a = scenes.invert(ref, c, S, x, y, np.zeros(n) + lo)
    b = scenes.invert(ref, c, S, x, y, np.zeros(n) + hi)
    L = np.hypot((a[0] - b[0]) * S.per_x, (a[1] - b[1]) * S.per_y).max()
    d = max(L / case["steps"], 0.01)
    if case["step"] == "default" and L < 500:
        d, kw = 5.0, {}
    else:
        kw = {"dem_sample_distance": d}
    dem = None if case["terrain"] == "none" else dems.as_dem(S, native)
    igm = ortho_tools.create_igm_image(img, dem, **kw)
    ctx.equal_arrays(igm.get_image_data(), data, "pixels")
    md = igm.get_metadata()
    ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (c["nx"], c["ny"], s["nb"]), "metadata")
    pc = igm.get_point_calculator()
    ctx.equal(pc.get_projection().srs, img.get_point_calculator().get_projection().srs, "projection")
    X, Y, Z = np.ravel(pc.lon_image), np.ravel(pc.lat_image), np.ravel(pc.alt_image)
    ctx.equal(np.shape(pc.lon_image), (c["ny"], c["nx"]), "shape of the position table")
    ctx.check(np.isfinite(X).all() and np.isfinite(Y).all() and np.isfinite(Z).all(), "positions are not finite")
    ctx.check(np.all((Z >= lo - 0.02 * (hi - lo) - 1.5) & (Z <= hi + 0.02 * (hi - lo) + 1.5)), "altitudes outside the range of the terrain")
    px, py = ref.project(X, Y, Z)
    G = gsd_matrix(ref, c, X, Y, Z)
    mid = scenes.invert(ref, c, S, x, y, np.zeros(n) + (lo + hi) / 2)
    G1 = np.linalg.inv(G)
    bend = np.abs(G1 @ np.stack([mid[0] - (a[0] + b[0]) / 2, mid[1] - (a[1] + b[1]) / 2], 1)[:, :, None]).max() * 3 if c["kind"] == "rpc" else 0
    err = np.hypot(px - x, py - y)
    ctx.check(err.max() <= 0.05 + bend + 1e-6 * max(c["nx"], c["ny"]) + 1e-9 / S.per_x * np.abs(G1).max() * 1e3, "position table: pixel %r is found %g pixels from its sight" % ((x[err.argmax()], y[err.argmax()]), err.max()))
    # on the terrain, to what one sampling interval can hide
    off = np.abs(S(X, Y) - Z)
    near = []
    for i in range(n):
        t = np.linspace(-1, 1, 9) * min(d / max(np.hypot((a[0][i] - b[0][i]) * S.per_x, (a[1][i] - b[1][i]) * S.per_y), 1e-9), 1.0)
        near.append(np.ptp(S(X[i] + (a[0][i] - b[0][i]) * t, Y[i] + (a[1][i] - b[1][i]) * t)))
    worst = off - 1.2 * np.array(near)
    i = int(worst.argmax())
    ctx.check(worst[i] <= 0.01 + 1e-5 * abs(hi) + 0.02 * (hi - lo), "pixel %r: altitude %r, the terrain there is at %r" % ((x[i], y[i]), Z[i], float(S(X[i], Y[i]))))
    ctx.label(c["kind"], case["terrain"])
    ctx.nontrivial(S.c["kind"] != "flat")


# one use after another
again(P, "position_table", ("nx", "ny", "nb"), 40, most=3)
again(P, "ortho_of_table", ("nx", "ny", "nb"), 24, most=3)
again(P, "from_camera", ("surf", "rel"), 24, most=3)
