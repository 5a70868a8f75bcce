"""C11  Footprints, output grids, and orthorectifying a whole image."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams, dems, scenes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds, uint
from harness.rasters import apply_affine, crs_strategy, geot, make_proj
from checks.c01 import CRS_NAMES, gsd_matrix, to_native, world_crs
from checks.c10 import convert, judge

P = "C11"
results_stay(P)
assume_note(P, "on terrain that is not level a pixel's place is only claimed to lie on its line of sight at a height within the "
               "range of the terrain; places are judged to the pixel error threshold asked for")


class Elsewhere:
    """a terrain, answered in another CRS"""

    def __init__(self, S, crs, native):
        self.S, self.crs, self.native, self.c = S, crs, native, S.c

    def __call__(self, X, Y):
        X, Y = np.asarray(X, float), np.asarray(Y, float)
        x, y = convert(X.ravel(), Y.ravel(), self.crs, self.native)
        return np.reshape(self.S(x, y), X.shape)

    def bounds(self):
        return self.S.bounds()


def dem_in(name, S, c):
    native = cams.proj_of(c)
    if name == "native":
        return dems.as_dem(S, native)
    crs = world_crs(name, c)
    return dems.as_dem(Elsewhere(S, crs, native), crs)


def foot(ref, c, X, Y, Z, thr):
    """native distance by which a place may be off when its pixel is matched to thr"""
    G = gsd_matrix(ref, c, X, Y, Z)
    return 1.8 * thr * np.sqrt((G ** 2).sum(axis=(1, 2)))


def ends(ref, c, S, x, y):
    lo, hi = S.bounds()
    n = len(x)
    return scenes.invert(ref, c, S, x, y, np.zeros(n) + lo), scenes.invert(ref, c, S, x, y, np.zeros(n) + hi)


def enlarge(k):
    """the same scene with an image of hundreds of pixels a side"""
    s = k["scene"]
    return {**k, "scene": {**s, "nx": 40 + 7 * s["nx"], "ny": 300 - 6 * s["ny"], "nb": min(s["nb"], 2)}}


grid = fixed(x0=q(-1e6, 1e6), y0=q(-1e6, 1e6), w=logq(1e-3, 1e5), h=logq(1e-3, 1e5), nx=uint(1, 400), ny=uint(1, 400),
             gx=q(0.01, 1), gy=q(0.01, 1), ragged=st.booleans())


@sub(P, "ground_grid", grid, quick=300, rule="a grid that is not square")
def ground_grid(case, ctx):
    """the grid holds the centres of nx x ny equal cells that tile the box, top row first, and matches the geotransform"""
    from shapely.geometry import Polygon, box
    from resippy.utils import photogrammetry_utils as pu
    nx, ny, x0, y0, w, h = (case[k] for k in ("nx", "ny", "x0", "y0", "w", "h"))
    x1, y1 = x0 + w, y0 + h
    X, Y = pu.create_ground_grid(x0, x1, y0, y1, nx, ny)
    t = 1e-9 * (abs(x0) + abs(y0) + w + h)
    wantx = x0 + w * (np.arange(nx) + 0.5) / nx
    wanty = y1 - h * (np.arange(ny) + 0.5) / ny
    ctx.close_to(X, np.tile(wantx, (ny, 1)), "x of the cell centres", rtol=0, atol=t)
    ctx.close_to(Y, np.tile(wanty[:, None], (1, nx)), "y of the cell centres", rtol=0, atol=t)
    poly = Polygon([(x0, y0 + 0.4 * h), (x0 + 0.2 * w, y1), (x1, y0 + 0.7 * h), (x0 + 0.9 * w, y0)]) if case["ragged"] else box(x0, y0, x1, y1)
    g = pu.world_poly_to_geo_t(poly, nx, ny)
    jj, ii = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    gx, gy = apply_affine(g, jj, ii)
    ctx.close_to(gx, X, "x of the cell centres by the geotransform", rtol=0, atol=t)
    ctx.close_to(gy, Y, "y of the cell centres by the geotransform", rtol=0, atol=t)
    # as many whole pixels as fit
    sx, sy = w * case["gx"], h * case["gy"]
    n = pu.get_nx_ny_pixels_in_extent(poly, sx, sy)
    for k, size, step, nm in ((n[0], w, sx, "x"), (n[1], h, sy, "y")):
        slack = 1e-6 + t / step
        ctx.check(k == int(k) and size / step - 1 - slack <= k <= size / step + slack, "%r pixels of %r in %s fit into %r" % (k, step, nm, size))
    ctx.nontrivial(nx != ny)


place = fixed(scene=scenes.scene_case(kinds=cams.any_camera_case()), surf=dems.surface_case(), rel=q(0.02, 1), which=st.sampled_from(["all", "some", "some2d"]), n=st.integers(1, 8),
              pseed=seeds(), terrain=st.sampled_from(["surface", "surface", "none"]), dem_crs=st.sampled_from(CRS_NAMES),
              source=st.sampled_from(["array", "array", "separate_bands"]), thr=st.sampled_from([None, 0.1, 1e-3]))


@sub(P, "large_pixel_places", place.map(enlarge), quick=16, rule="terrain that is not level, or several cameras")
@sub(P, "pixel_places", place, quick=400, rule="terrain that is not level, or several cameras")
def pixel_places(case, ctx):
    """the place found for a pixel: on its line of sight, at a height within the range of the terrain (exactly there if level)"""
    from resippy.photogrammetry import ortho_tools
    s = case["scene"]
    if case["terrain"] == "none":
        from checks.c10 import at_zero
        s = at_zero(s, case)
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"] if case["terrain"] == "surface" else {**case["surf"], "kind": "flat"}, case["rel"])
    if case["terrain"] == "none":
        S.z0 = 0.0
    sep = case["source"] == "separate_bands" and c["kind"] != "geotiff"
    img = scenes.make_image(s, c, np.zeros((c["ny"], c["nx"], s["nb"]), "uint8"), ctx, "separate_bands" if sep else "array")
    dem = None if case["terrain"] == "none" else dem_in(case["dem_crs"], S, c)
    band = case["pseed"] % s["nb"] if sep else (None if case["pseed"] % 2 else 0)
    cb = scenes.band_case(c, band) if sep else c
    g = rng(case["pseed"])
    if case["which"] == "all":
        x, y = (a.astype(float) for a in np.meshgrid(np.arange(c["nx"]), np.arange(c["ny"])))
        kw = {}
    else:
        shape = (case["n"],) if case["which"] == "some" else (2, case["n"])
        x, y = g.uniform(0, c["nx"] - 1, shape), g.uniform(0, c["ny"] - 1, shape)
        kw = dict(pixels_x=x.copy(), pixels_y=y.copy())
    thr = case["thr"] or 0.01
    if case["thr"]:
        kw["pixel_error_threshold"] = thr
    lon, lat = ortho_tools.get_pixel_lon_lats(img, dem=dem, band=band, **kw)
    ctx.equal((np.shape(lon), np.shape(lat)), (x.shape, x.shape), "shape of the result")
    on_sight(ctx, cb, S, np.ravel(x), np.ravel(y), np.ravel(lon), np.ravel(lat), thr)
    ctx.label(c["kind"], case["which"], case["dem_crs"] if dem is not None else "no_dem", "per_band" if sep else "coregistered")
    ctx.nontrivial(S.c["kind"] != "flat" or sep)


def on_sight(ctx, cb, S, x, y, lon, lat, thr):
    ref = cams.reference(cb)
    ctx.check(np.isfinite(lon).all() and np.isfinite(lat).all(), "places are not finite")
    (lx, ly), (hx, hy) = ends(ref, cb, S, x, y)
    # position along the segment between the sights at the lowest and highest terrain, and distance from it
    dx, dy = hx - lx, hy - ly
    L2 = dx ** 2 + dy ** 2
    with np.errstate(all="ignore"):
        t = np.where(L2 > 0, ((lon - lx) * dx + (lat - ly) * dy) / L2, 0.0)
    t = np.clip(t, 0, 1)
    lo, hi = S.bounds()
    qx, qy = scenes.invert(ref, cb, S, x, y, lo + t * (hi - lo))
    slack = foot(ref, cb, qx, qy, lo + t * (hi - lo), thr) + 1e-8 * (1 if S.per_x == 1 else 1e-3)
    # the sight may bend a little (rational models), so the height is refined once more by the distance left over
    off = np.hypot(lon - qx, lat - qy)
    bend = 0.02 * np.sqrt(L2) if cb["kind"] == "rpc" else 1e-9 * np.sqrt(L2)
    i = int(np.argmax(off - slack - bend))
    ctx.check(off[i] <= slack[i] + bend[i], "the place found for pixel %r is %g from its line of sight between heights %r and %r (allowed %g)"
              % ((x[i], y[i]), off[i], lo, hi, slack[i] + bend[i]))


ext = fixed(scene=scenes.scene_case(kinds=cams.any_camera_case()), surf=dems.surface_case(), rel=q(0.02, 1), pseed=seeds(),
            terrain=st.sampled_from(["surface", "level", "none"]), dem_crs=st.sampled_from(CRS_NAMES),
            source=st.sampled_from(["array", "separate_bands"]), bands=st.sampled_from(["all", "int", "list"]), thr=st.sampled_from([None, None, 0.1, 1e-3]))


@sub(P, "large_extent", ext.map(enlarge), quick=20, rule="tilted camera, terrain that is not level, or several cameras")
@sub(P, "extent", ext, quick=300, rule="tilted camera, terrain that is not level, or several cameras")
def extent(case, ctx):
    """the extent is the convex hull of the places the border pixels look at, over all bands asked for"""
    from resippy.photogrammetry import ortho_tools
    from checks.c10 import at_zero
    s = at_zero(case["scene"], case)
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"] if case["terrain"] == "surface" else {**case["surf"], "kind": "flat"}, case["rel"])
    if case["terrain"] == "none":
        S.z0 = 0.0
    sep = case["source"] == "separate_bands" and c["kind"] != "geotiff"
    img = scenes.make_image(s, c, np.zeros((c["ny"], c["nx"], s["nb"]), "uint8"), ctx, "separate_bands" if sep else "array")
    dem = None if case["terrain"] == "none" else dem_in(case["dem_crs"], S, c)
    nb = s["nb"]
    bands = {"all": None, "int": case["pseed"] % nb, "list": [int(v) for v in rng(case["pseed"]).permutation(nb)[:max(1, nb - 1)]]}[case["bands"]]
    kw = {} if case["thr"] is None else {"pixel_error_threshold": case["thr"]}
    thr = case["thr"] or 0.01
    poly = ortho_tools.get_extent(img, dem, bands=bands, **kw)
    ctx.check(poly.geom_type == "Polygon" and poly.is_valid and not poly.is_empty, "extent is not a polygon: %s" % poly.geom_type)
    hull = np.array(poly.exterior.coords)
    use = [0] if not sep else (range(nb) if bands is None else ([bands] if isinstance(bands, int) else bands))
    i = np.arange(c["nx"] - 1 + c["ny"] - 1)
    bx = np.concatenate([np.arange(c["nx"]), np.arange(c["nx"]), np.zeros(c["ny"]), np.zeros(c["ny"]) + c["nx"] - 1]).astype(float)
    by = np.concatenate([np.zeros(c["nx"]), np.zeros(c["nx"]) + c["ny"] - 1, np.arange(c["ny"]), np.arange(c["ny"])]).astype(float)
    lo, hi = S.bounds()
    A, B, sl = [], [], 0.0
    for b in use:
        cb = scenes.band_case(c, b) if sep else c
        ref = cams.reference(cb)
        a, d = ends(ref, cb, S, bx, by)
        mid = scenes.invert(ref, cb, S, bx, by, np.zeros(len(bx)) + 0.5 * (lo + hi))
        A.append(np.stack(a, 1)), B.append(np.stack(d, 1))
        sl = max(sl, foot(ref, cb, a[0], a[1], np.zeros(len(bx)) + lo, thr).max() + np.hypot(mid[0] - (a[0] + d[0]) / 2, mid[1] - (a[1] + d[1]) / 2).max() * 1.5)
    A, B = np.concatenate(A), np.concatenate(B)
    sl += 1.1e-3 / S.per_x          # extents are simplified to a millimetre
    ctr = A.mean(axis=0)
    # support in every direction: between what the sights reach at least and at most
    for k in range(48):
        u = np.array([math.cos(k * math.pi / 24), math.sin(k * math.pi / 24)])
        got = ((hull - ctr) @ u).max()
        a, b = (A - ctr) @ u, (B - ctr) @ u
        low, high = np.minimum(a, b).max(), np.maximum(a, b).max()
        ctx.check(low - sl <= got <= high + sl, "in direction %s the extent reaches %r, the border pixels look at places reaching %r to %r (slack %g)"
                  % (u, got, low, high, sl))
    ctx.label(c["kind"], "per_band" if sep else "coregistered", case["terrain"])
    ctx.nontrivial(True if c["kind"] == "rpc" or S.c["kind"] != "flat" or sep else c.get("om", 1) != 0)


full = fixed(scene=scenes.scene_case(kinds=st.one_of(cams.pinhole_case(), cams.pix4d_case(), cams.opencv_case(), cams.rpc_case(), cams.geotiff_case())), surf=dems.surface_case(), rel=q(0.02, 0.5), pseed=seeds(),
             terrain=st.sampled_from(["level", "level", "none"]), crs=st.sampled_from(["native", "native", "default", "4326", "utm", "3857", "feet", "lcc", "slanted", "slanted", "next_zone"]),
             source=st.sampled_from(scenes.SOURCES), bands=st.sampled_from(["all", "list"]), gsd=st.sampled_from([None, 0.7, 1.0, 1.7]),
             order=st.sampled_from([None, 0, 1]), nodata=st.sampled_from([None, 9]))


@sub(P, "large_full_ortho", full.map(enlarge), quick=24, rule="at least ten output pixels inside the image judged")
@sub(P, "full_ortho", full, quick=400, rule="at least ten output pixels inside the image judged")
def full_ortho(case, ctx):
    """orthorectifying a whole image: covers the footprint, pixels of the size asked for (in metres on the ground), right content"""
    from resippy.photogrammetry import ortho_tools
    from resippy.image_objects.image_factory import ImageFactory
    from checks.c10 import at_zero
    from pyproj import Geod, Proj
    s = at_zero(case["scene"], case)
    s = {**s, "nx": s["nx"] + 8, "ny": s["ny"] + 8}
    c = scenes.unpack(s)
    if c["kind"] == "geotiff":
        c["gy"] = c["gx"] * min(max(c["gy"] / c["gx"], 0.5), 2)
        c["lat"] = min(max(c["lat"], -60), 60)
    if c["kind"] == "rpc":
        c["lon_scale"] = min(max(c["lon_scale"], 0.5 * c["lat_scale"]), 2 * c["lat_scale"])
    if c.get("south"):
        c["Y"] = max(c["Y"], 2.0e6)          # local UTM projections end at 80 degrees
    S = scenes.surface(c, {**case["surf"], "kind": "flat"}, case["rel"])
    if case["terrain"] == "none":
        S.z0 = 0.0
    data = scenes.pixels_of(s, c)
    source = case["source"]
    if c["kind"] == "geotiff":
        img = ImageFactory.geotiff.from_numpy_array(data.copy(), cams.geotiff_geot(c), cams.proj_of(c))
        source = "array"
    else:
        img = scenes.make_image(s, c, data, ctx, source)
    native = cams.proj_of(c)
    sep = source == "separate_bands"
    nb = s["nb"]
    bands = None if case["bands"] == "all" else [int(v) for v in rng(case["pseed"]).permutation(nb)[:max(1, nb - 1)]]
    use = list(range(nb)) if bands is None else bands
    kw = {}
    out = native
    if case["crs"] in ("4326", "utm"):
        out = make_proj({"kind": "4326"})
        if case["crs"] == "utm":
            xc, yc = convert([S.cx], [S.cy], native, out)
            out = Proj(proj="utm", zone=int((xc[0] + 180) // 6) + 1, south=bool(yc[0] < 0), ellps="WGS84", preserve_units=True)
        kw["output_proj"] = out
    elif case["crs"] not in ("native", "default"):
        kw["output_proj"] = out = world_crs(case["crs"], c)
    elif case["crs"] == "native":
        kw["output_proj"] = native
    ref = cams.reference(scenes.band_case(c, use[0]) if sep else c)
    # ground size of a pixel of the image, in metres
    cx = np.array([0.0, c["nx"] - 1, 0.0, c["nx"] - 1])
    cy = np.array([0.0, 0.0, c["ny"] - 1, c["ny"] - 1])
    X, Y = scenes.invert(ref, c, S, cx, cy, np.zeros(4) + S.z0)
    ll = convert(X, Y, native, make_proj({"kind": "4326"}))
    geod = Geod(ellps="WGS84")

    def dist(i, j):
        return geod.inv(ll[0][i], ll[1][i], ll[0][j], ll[1][j])[2]
    own = 0.5 * (dist(0, 1) / c["nx"] + dist(0, 2) / c["ny"])
    if case["gsd"] is not None:
        kw["gsd_meters"] = gsd = float(own * case["gsd"])
    else:
        gsd = own
    if case["order"] is not None:
        kw["spline_order"] = case["order"]
    if case["nodata"] is not None:
        kw["nodata_val"] = case["nodata"]
    # the corners of the output box must be in front of the camera too
    dem = None if case["terrain"] == "none" else dems.as_dem(S, native)
    res = ortho_tools.create_full_ortho_gtiff_image(img, dem=dem, bands=bands, **kw)
    md = res.get_metadata()
    nx, ny = md.get_npix_x(), md.get_npix_y()
    g = list(res.get_point_calculator().get_geot())
    ctx.equal(res.get_point_calculator().get_projection().srs, kw.get("output_proj", img.get_point_calculator().get_projection()).srs,
              "CRS of the ortho image")
    ctx.equal((res.get_image_data().shape, str(res.get_image_data().dtype)), ((ny, nx, len(use)), s["dtype"]), "shape and data type")
    # covers the footprint exactly
    px = np.concatenate([np.arange(c["nx"]), np.arange(c["nx"]), np.zeros(c["ny"]), np.zeros(c["ny"]) + c["nx"] - 1]).astype(float)
    py = np.concatenate([np.zeros(c["nx"]), np.zeros(c["nx"]) + c["ny"] - 1, np.arange(c["ny"]), np.arange(c["ny"])]).astype(float)
    xs, ys = [], []
    for b in (use if sep else [0]):
        fx, fy = scenes.invert(cams.reference(scenes.band_case(c, b) if sep else c), c, S, px, py, np.zeros(len(px)) + S.z0)
        fx, fy = convert(fx, fy, native, out)
        xs.append(fx), ys.append(fy)
    xs, ys = np.concatenate(xs), np.concatenate(ys)
    box = [xs.min(), ys.min(), xs.max(), ys.max()]
    x0, y0 = apply_affine(g, 0, 0)
    x1, y1 = apply_affine(g, nx, ny)
    slack = 0.05 * max((box[2] - box[0]) / c["nx"], (box[3] - box[1]) / c["ny"])
    ctx.close_to([x0, y1, x1, y0], box, "ground covered", rtol=0, atol=slack)
    # pixel size on the ground
    mx, my = (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
    w, h = convert([box[0], box[2], mx, mx], [my, my, box[1], box[3]], out, make_proj({"kind": "4326"}))
    wm, hm = geod.inv(w[0], h[0], w[1], h[1])[2], geod.inv(w[2], h[2], w[3], h[3])[2]
    for n, size, nm in ((nx, wm, "width"), (ny, hm, "height")):
        ctx.check(size / gsd * 0.99 - 1.05 <= n <= size / gsd * 1.01 + 0.05, "%d pixels of %g m make up a %s of %g m" % (n, gsd, nm, size))
    # content
    jj, ii = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    gx, gy = apply_affine(g, jj, ii)
    Xn, Yn = convert(gx.ravel(), gy.ravel(), out, native)
    seen = 0
    for k, b in enumerate(use):
        cb = scenes.band_case(c, b) if sep else c
        sx, sy = cams.reference(cb).project(Xn, Yn, np.zeros(len(Xn)) + S.z0)
        a, _ = judge(ctx, res.get_image_data()[:, :, k], data[:, :, b], np.reshape(sx, (ny, nx)), np.reshape(sy, (ny, nx)), 1 if case["order"] is None else case["order"],
                     case["nodata"] or 0, s["dtype"], "band %d" % b)
        seen += a
    ctx.label(c["kind"], source, case["crs"], "own_gsd" if case["gsd"] is None else "given_gsd")
    ctx.nontrivial(seen >= 10)


# one use after another
again(P, "ground_grid", ("nx", "ny"), 40)
again(P, "pixel_places", ("surf", "rel"), 30, most=3)
again(P, "extent", ("surf", "rel"), 30, most=3)
again(P, "full_ortho", ("surf", "rel"), 30, most=3)
