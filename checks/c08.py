"""C08  Elevation models: what height is reported where."""
import numpy as np
from hypothesis import strategies as st

from harness.core import again, results_stay, sub
from harness.gens import array_of, fixed, laid, logq, q, rng, seeds
from harness.rasters import apply_affine, crs_strategy, geot, geot_strategy, make_proj, write_gtiff, wkt
from checks.c01 import CRS_NAMES, to_native, world_crs, world_crs_at

P = "C08"
results_stay(P)
SENTINEL = {"int16": [-32768, -9999, 0], "uint16": [65535, 0], "int32": [-9999, 2147483647], "uint8": [255, 0],
            "float32": [-9999.0, -9999.5, -3.4028234663852886e38, float("nan"), 0.25],
            "float64": [-9999.0, -9999.5, 1e30, float("nan")]}

dem_file = st.sampled_from(sorted(SENTINEL)).flatmap(lambda dt: fixed(
    dtype=st.just(dt), nodata=st.one_of(st.none(), st.sampled_from(SENTINEL[dt])), nx=st.integers(2, 30),
    ny=st.integers(2, 30), seed=seeds(), crs=crs_strategy(), gt=geot_strategy(), holes=st.sampled_from([0, 0.05, 0.4]),
    given=st.booleans()))


def dem_array(c):
    g = rng(c["seed"])
    a = g.uniform(1, 250, (c["ny"], c["nx"]))
    if c["dtype"] not in ("uint8", "uint16") and c["seed"] % 2:
        a = a * 8 - 1000
    a = a.astype(c["dtype"])
    hole = g.random(a.shape) < c["holes"]
    hole[c["ny"] // 2, c["nx"] // 2] = False
    if c["nodata"] is not None:
        a[(a == np.array(c["nodata"]).astype(a.dtype))] += 1
        a[hole] = c["nodata"]
    else:
        hole[:] = False
    truth = a.astype(float)
    truth[hole] = np.nan
    return a, truth, hole


def make_dem(c, ctx, method):
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    a, truth, hole = dem_array(c)
    g = geot(c["gt"], c["crs"])
    f = ctx.path("dem.tif")
    # the no-data value comes from the file or from the caller
    write_gtiff(f, a, g, wkt(c["crs"]), None if c["given"] else c["nodata"])
    kw = {} if method == "default" else {"interpolation_method": method}
    dem = DemFactory.from_gtiff_file(f, nodata_value=c["nodata"] if c["given"] else None, **kw)
    return dem, truth, g


def where_pixels(c, g, px, py, crs):
    """world coordinates (in the asked-for CRS) of pixel positions"""
    X, Y = apply_affine(g, px, py)
    if crs is not None:
        from harness.rasters import transformer
        X, Y = transformer(make_proj(c["crs"]), crs).transform(X, Y)
    return np.asarray(X), np.asarray(Y)


def query_crs(name, c, g):
    if name in ("native", "4326", "3857"):
        return world_crs(name)
    return world_crs_at(name, *to_native(*apply_affine(g, c["nx"] / 2, c["ny"] / 2), make_proj(c["crs"]), make_proj({"kind": "4326"})))


query = fixed(dem=dem_file, n=st.integers(2, 12), pseed=seeds(), crs=st.sampled_from(["native", "native", "native", "4326", "4326", "feet", "lcc", "next_zone"]),
              margin=st.sampled_from([0.0, 0.0, 3.0]), two_d=st.booleans())


def locations(case):
    c = case["dem"]
    g = rng(case["pseed"])
    n = case["n"] * (2 if case["two_d"] else 1)
    m = case["margin"]
    return (g.integers(-int(m), c["nx"] + int(m), n), g.integers(-int(m), c["ny"] + int(m), n),
            g.uniform(0.02, 0.98, n), g.uniform(0.02, 0.98, n))


def ask(dem, X, Y, crs, case, ctx):
    shp = (2, case["n"]) if case["two_d"] else (case["n"],)
    Xq, Yq = laid(X.reshape(shp), case["pseed"]), laid(Y.reshape(shp), case["pseed"] // 7)
    z = dem.get_elevations(Xq, Yq, **({} if crs is None else {"world_proj": crs}))
    ctx.equal(np.shape(z), shp, "shape of the elevations")
    ctx.equal_arrays(Xq, X.reshape(shp), "the caller's x coordinates")
    ctx.equal_arrays(Yq, Y.reshape(shp), "the caller's y coordinates")
    one = dem.get_elevations(float(X[0]), float(Y[0]), **({} if crs is None else {"world_proj": crs}))
    ctx.equal(np.ndim(one), 0, "dimensions of the elevation of a single position")
    z = np.ravel(z)
    ctx.close_to(one, z[0], "a position asked about alone", rtol=1e-6, atol=1e-3)
    return z


@sub(P, "nearest", query, quick=500, rule="a query in a foreign CRS, outside the raster, or on a raster with no-data cells")
def nearest(case, ctx):
    """nearest: the value of the cell containing the position; outside, of the closest edge cell; no-data is nan"""
    c = case["dem"]
    dem, truth, g = make_dem(c, ctx, "nearest")
    ix, iy, fx, fy = locations(case)
    crs = query_crs(case["crs"], c, g)
    X, Y = where_pixels(c, g, ix + fx, iy + fy, crs)
    z = ask(dem, X, Y, crs, case, ctx)
    want = truth[np.clip(iy, 0, c["ny"] - 1), np.clip(ix, 0, c["nx"] - 1)]
    keep = np.ones(len(z), bool)
    if crs is not None:       # the trip through another CRS is good to about a millimetre
        mm = 2e-3 / (111000.0 if c["crs"]["kind"] == "4326" else 1.0)
        keep = (np.minimum(np.minimum(fx, 1 - fx) * abs(g[1]), np.minimum(fy, 1 - fy) * abs(g[5])) > 3 * mm)
    ctx.close_to(z[keep], want[keep], "elevation", rtol=1e-6, atol=1e-6)
    ctx.label("nan" if np.isnan(want).any() else "finite", c["dtype"])
    ctx.nontrivial(case["crs"] != "native" or case["margin"] > 0 or np.isnan(truth).any())


def ref_bilinear(truth, px, py):
    ny, nx = truth.shape
    px, py = np.clip(px, 0, nx - 1), np.clip(py, 0, ny - 1)
    x1, y1 = np.floor(px).astype(int), np.floor(py).astype(int)
    x2, y2 = np.minimum(x1 + 1, nx - 1), np.minimum(y1 + 1, ny - 1)
    wx, wy = px - x1, py - y1
    tot = np.zeros(len(px))
    for yy, xx, w in ((y1, x1, (1 - wx) * (1 - wy)), (y1, x2, wx * (1 - wy)), (y2, x1, (1 - wx) * wy), (y2, x2, wx * wy)):
        tot += np.where(w > 0, truth[yy, xx] * w, 0.0)
    return tot, x1, x2, y1, y2


@sub(P, "bilinear", query.flatmap(lambda c: fixed(where=st.sampled_from(["anywhere", "nodes", "lines"])).map(
    lambda o: {**c, **o})), quick=600,
     rule="positions strictly between samples, or nodes and edges of the raster, with real spread of the samples")
def bilinear(case, ctx):
    """bilinear: the surface through the samples, each at its pixel's upper-left corner, held constant outside"""
    c = case["dem"]
    dem, truth, g = make_dem(c, ctx, "bilinear" if case["pseed"] % 3 else "default")
    ix, iy, fx, fy = locations(case)
    if case["where"] == "nodes":
        fx, fy = fx * 0, fy * 0
    elif case["where"] == "lines":
        fx = fx * 0
    crs = query_crs(case["crs"], c, g)
    X, Y = where_pixels(c, g, ix + fx, iy + fy, crs)
    z = ask(dem, X, Y, crs, case, ctx)
    want, x1, x2, y1, y2 = ref_bilinear(truth, ix + fx, iy + fy)
    # where a sample that takes (almost) no part is missing, only rounding decides whether it counts
    touched = np.isnan(truth[np.clip(np.array([[y1 + dy, x1 + dx] for dy in (-1, 0, 1) for dx in (-1, 0, 1)])[:, 0], 0,
                                     c["ny"] - 1),
                             np.clip(np.array([[y1 + dy, x1 + dx] for dy in (-1, 0, 1) for dx in (-1, 0, 1)])[:, 1], 0,
                                     c["nx"] - 1)]).any(axis=0)
    four = np.isnan(np.array([truth[y1, x1], truth[y1, x2], truth[y2, x1], truth[y2, x2]]))
    inside = case["where"] == "anywhere"
    clear = ~touched
    step = 4.0 * (np.nanmax(truth) - np.nanmin(truth))
    mm = 2e-3 / (111000.0 if c["crs"]["kind"] == "4326" else 1.0) if crs is not None else 0.0
    slack = (1e-6 if c["dtype"] == "float32" else 1e-10) * np.nanmax(np.abs(truth)) + 1e-9 + step * (mm / min(abs(g[1]), abs(g[5])) +
                                                             pix_noise(g))
    d = np.abs(z[clear] - want[clear])
    ctx.check(np.all(d <= slack), "elevation off by %r (allowed %r): got %r expected %r"
              % (d.max() if d.size else 0, slack, z[clear][:5].tolist(), want[clear][:5].tolist()))
    # every sample that takes part is missing -> nan; all present -> a number between them
    if inside and case["margin"] == 0:
        interior = (ix < c["nx"] - 1) & (iy < c["ny"] - 1)
        ctx.check(np.all(np.isnan(z[interior & four.any(axis=0)])), "a missing sample takes part, yet a number is reported")
        ctx.check(np.all(np.isfinite(z[~four.any(axis=0)])), "all samples are there, yet nan is reported")
    ctx.label(case["where"], c["dtype"])
    ctx.nontrivial(clear.any() and np.nanmax(truth) > np.nanmin(truth))


exact = fixed(nx=st.integers(2, 20), ny=st.integers(2, 20), seed=seeds(), dtype=st.sampled_from(["float32", "float64", "int16"]), holes=st.sampled_from([0.1, 0.3, 0.6]),
              x0=st.integers(200000, 800000), y0=st.integers(1000000, 9000000), gsd=st.sampled_from([0.5, 1.0, 2.0, 8.0, 32.0]), gy=st.sampled_from([0.25, 1.0, 4.0, 16.0]),
              n=st.integers(4, 40), given=st.booleans(), method=st.sampled_from(["default", "bilinear"]))


@sub(P, "on_samples", exact, quick=200, rule="a place that lies exactly on a sample or on the line between two, with a missing sample right next to it")
def on_samples(case, ctx):
    """bilinear, places whose pixel position is exact: only samples with a share in the height count, and each of them does"""
    from harness.rasters import write_gtiff
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    from pyproj import Proj
    g = rng(case["seed"])
    ny, nx = case["ny"], case["nx"]
    truth = np.round(g.uniform(1, 250, (ny, nx)) * (1 if case["dtype"] == "int16" else 64)) / (1 if case["dtype"] == "int16" else 64)
    hole = g.random((ny, nx)) < case["holes"]
    a = np.where(hole, -9999, truth).astype(case["dtype"])
    truth = np.where(hole, np.nan, truth)
    geo = [float(case["x0"]), case["gsd"], 0.0, float(case["y0"]), 0.0, -case["gy"]]
    pr = Proj(proj="utm", zone=18, ellps="WGS84", datum="WGS84", preserve_units=True)
    f = ctx.path("dem.tif")
    write_gtiff(f, a, geo, pr.crs.to_wkt(), None if case["given"] else -9999)
    kw = {} if case["method"] == "default" else {"interpolation_method": case["method"]}
    dem = DemFactory.from_gtiff_file(f, nodata_value=-9999 if case["given"] else None, **kw)
    # halves and quarters of a pixel are exact in binary, as are the coordinates of the origin
    px = g.integers(0, nx, case["n"]) + g.choice([0.0, 0.0, 0.5, 0.25], case["n"])
    py = g.integers(0, ny, case["n"]) + g.choice([0.0, 0.0, 0.5, 0.75], case["n"])
    X, Y = geo[0] + geo[1] * px, geo[3] + geo[5] * py
    z = np.asarray(dem.get_elevations(X, Y))
    want, x1, x2, y1, y2 = ref_bilinear(truth, px, py)
    # beyond the last sample the surface stays as it is at the edge; whether a missing neighbour row counts there is not judged
    judged = (px <= nx - 1) & (py <= ny - 1)
    ctx.equal(np.isnan(z)[judged].tolist(), np.isnan(want)[judged].tolist(), "which places have no height")
    ctx.close_to(z[judged], want[judged], "heights", rtol=1e-9, atol=1e-9)
    near = np.array([np.isnan(truth[max(0, int(v) - 1):int(v) + 2, max(0, int(u) - 1):int(u) + 2]).any() for u, v in zip(px, py)])
    ctx.nontrivial(bool((judged & np.isfinite(want) & near & ((px % 1 == 0) | (py % 1 == 0))).any()))


def pix_noise(g):
    """pixel coordinates computed from coordinates of this size carry this much rounding noise"""
    return 1e-15 * (abs(g[0]) / abs(g[1]) + abs(g[3]) / abs(g[5])) * 8


@sub(P, "statistics", dem_file, quick=300, rule="a raster with no-data cells")
def statistics(case, ctx):
    """highest, lowest and mean height ignore no-data cells; the model knows its projection and reference"""
    dem, truth, g = make_dem(case, ctx, "nearest")
    v = truth[np.isfinite(truth)]
    rel = 1e-6 if case["dtype"] != "float32" else 1e-4
    ctx.close_to(dem.get_highest_alt(), v.max(), "highest altitude", rtol=1e-6)
    ctx.close_to(dem.get_lowest_alt(), v.min(), "lowest altitude", rtol=1e-6)
    ctx.close_to(dem.get_mean_alt(), v.mean(), "mean altitude", rtol=rel, atol=rel * np.abs(v).max())
    lon, lat = apply_affine(g, [0.0, 3.0], [0.0, 2.0])
    a = to_native(*np.array(dem.get_projection()(lon, lat, inverse=True)), make_proj({"kind": "4326"}), make_proj({"kind": "4326"}))
    b = make_proj(case["crs"])(lon, lat, inverse=True)
    ctx.close_to(a, b, "projection of the model", rtol=0, atol=1e-7)
    dem.get_reference()
    dem.set_reference(5773)
    ctx.equal(dem.get_reference(), 5773, "reference set by the caller")
    ctx.nontrivial(np.isnan(truth).any())


@sub(P, "constant", fixed(z=st.one_of(q(-500, 9000), st.integers(-400, 8000), st.just("default")), n=st.integers(1, 8),
                          two_d=st.booleans(), seed=seeds(), crs=st.sampled_from(["native", "4326", "3857"])), quick=100,
     rule="height not zero")
def constant(case, ctx):
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    dem = DemFactory.constant_elevation() if case["z"] == "default" else DemFactory.constant_elevation(case["z"])
    z = 0 if case["z"] == "default" else case["z"]
    shp = (3, case["n"]) if case["two_d"] else (case["n"],)
    X = rng(case["seed"]).uniform(-50, 50, shp)
    crs = world_crs(case["crs"])
    got = dem.get_elevations(X, X / 2, **({} if crs is None else {"world_proj": crs}))
    ctx.equal_arrays(got, np.zeros(shp) + z, "elevation")
    ctx.equal((dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()), (z, z, z), "statistics")
    ctx.equal(float(dem.get_elevations(3.0, 4.0)), float(z), "elevation of one position")
    ctx.equal((dem.get_projection(), dem.get_reference()), (None, None), "projection and reference")
    dem.set_projection(make_proj({"kind": "4326"}))
    ctx.equal(dem.get_projection().srs, make_proj({"kind": "4326"}).srs, "projection set by the caller")
    ctx.nontrivial(z != 0)


@sub(P, "unknown_interpolation", fixed(dem=dem_file, name=st.sampled_from(["cubic", "", "Bilinear", "NEAREST", "linear"])),
     quick=40, rule="every case")
def unknown_interpolation(case, ctx):
    """asking for an interpolation method that does not exist is refused"""
    try:
        make_dem(case["dem"], ctx, case["name"])
    except (TypeError, ValueError):
        ctx.nontrivial()
        return
    ctx.fail("interpolation method %r was accepted silently" % case["name"])


geoid = fixed(dem=dem_file.map(lambda c: {**c, "dtype": "float32", "nodata": None, "holes": 0}),
              n0=q(-80, 80), nlon=q(-2, 2), nlat=q(-2, 2), first=st.sampled_from(["geoid", "ellipsoid", "reference"]))


def site(c):
    """a place where CRS and grid are both comfortable"""
    c = dict(c)
    gx = min(max(c["gt"]["gx"], 1.0), 60.0)
    c["gt"] = {**c["gt"], "gx": gx, "gy": gx, "north_up": True, "v": 0.2 + 0.6 * c["gt"]["v"]}
    if c["crs"]["kind"] in ("3857", "epsg"):
        # (a geoid grid belongs to WGS84: GDAL adds a change of datum for CRSs of other datums; and none goes around a pole)
        c["crs"] = {"kind": "4326"}
    return c


def write_geoid(fname, n0, a, b, lon0, lat0):
    """1-degree geoid grid, undulation n0 + a (lon - lon0) + b (lat - lat0), within 5 degrees of the site"""
    from osgeo import gdal
    clon, clat = round(lon0), round(lat0)
    lons = np.arange(clon - 5, clon + 6)
    lats = np.arange(clat + 5, clat - 6, -1)
    N = n0 + a * (lons[None, :] - lon0) + b * (lats[:, None] - lat0)
    mem = gdal.GetDriverByName("MEM").Create("", len(lons), len(lats), 1, gdal.GDT_Float32)
    mem.SetGeoTransform([lons[0] - 0.5, 1, 0, lats[0] + 0.5, 0, -1])
    mem.GetRasterBand(1).WriteArray(N.astype("float32"))
    gdal.GetDriverByName("GTX").CreateCopy(fname, mem)
    return N


@sub(P, "geoid", geoid, quick=120, rule="undulation of at least half a metre")
def geoid_conversion(case, ctx):
    """ellipsoid -> geoid subtracts the undulation, geoid -> ellipsoid adds it back"""
    c = site(case["dem"])
    g = geot(c["gt"], c["crs"])
    P4 = make_proj({"kind": "4326"})
    cx, cy = c["nx"] / 2, c["ny"] / 2
    lon0, lat0 = to_native(*apply_affine(g, cx, cy), make_proj(c["crs"]), P4)
    grid = ctx.path("grid.gtx")
    write_geoid(grid, case["n0"], case["nlon"], case["nlat"], lon0, lat0)
    dem, truth, _ = make_dem(c, ctx, "nearest")
    jj, ii = np.meshgrid(np.arange(c["nx"]) + 0.5, np.arange(c["ny"]) + 0.5)
    X, Y = apply_affine(g, jj, ii)
    lon, lat = to_native(X, Y, make_proj(c["crs"]), P4)
    N = case["n0"] + case["nlon"] * (lon - lon0) + case["nlat"] * (lat - lat0)
    ctx.close_to(dem.get_elevations(X, Y), truth, "before conversion", rtol=1e-6)
    if case["first"] == "reference":
        dem.convert_reference(ctx.path("r.tif"), 5714)
        ctx.close_to(dem.get_elevations(X, Y), truth, "after a change of reference that has no undulation model", rtol=1e-6,
                     atol=1e-3)
        ctx.nontrivial()
        return
    sign = -1 if case["first"] == "geoid" else 1
    there, back = dem.convert_to_geoid_heights, dem.convert_to_ellipsoid_heights
    if sign > 0:
        there, back = back, there
    there(ctx.path("a.tif"), grid)
    ctx.close_to(dem.get_elevations(X, Y), truth + sign * N, "after converting to %s heights" % case["first"], rtol=1e-6, atol=0.02)
    ctx.close_to(dem.get_highest_alt(), np.max(truth + sign * N), "highest altitude after conversion", rtol=1e-6, atol=0.02)
    back(ctx.path("b.tif"), grid)
    ctx.close_to(dem.get_elevations(X, Y), truth, "after converting back", rtol=1e-6, atol=0.02)
    ctx.nontrivial(abs(case["n0"]) >= 0.5)


# many positions at once, large rasters
sub(P, "large_statistics", dem_file.map(lambda c: {**c, "nx": c["nx"] * (1 + c["seed"] % 17), "ny": c["ny"] * (1 + c["seed"] % 23)}), quick=40,
    rule="a raster with no-data cells")(statistics)
many = st.tuples(query, logq(300, 50000), st.integers(2, 30), st.integers(2, 30), st.sampled_from([1, 1, 20])).map(
    lambda t: {**t[0], "n": int(t[1]), "dem": {**t[0]["dem"], "nx": t[2] * t[4], "ny": t[3] * t[4]}})
sub(P, "many_nearest", many, quick=20, rule="foreign CRS, outside, or no-data cells")(nearest)
sub(P, "many_bilinear", many.map(lambda c: {**c, "where": "anywhere"}), quick=20, rule="positions between samples")(bilinear)


talk = fixed(dems=st.lists(dem_file, min_size=1, max_size=2), steps=st.lists(fixed(
    which=st.integers(0, 1), op=st.sampled_from(["ask", "ask", "ask", "nearest", "bilinear", "stats", "other_file", "other_place"]), there=dem_file,
    crs=st.sampled_from(["native", "native", "4326", "feet", "next_zone"]), n=st.integers(2, 6), pseed=seeds(),
    margin=st.sampled_from([0.0, 3.0]), two_d=st.booleans(), repeat=st.booleans()), min_size=3, max_size=9))


@sub(P, "conversations", talk, quick=150, rule="positions asked for in at least two ways on one model")
def conversations(case, ctx):
    """any history of questions, changes of interpolation and of the file behind several models"""
    from resippy.image_objects.image_factory import ImageFactory
    made = [list(make_dem(c, Sub_(ctx, "d%d" % i), "default")) + [c, "bilinear"] for i, c in enumerate(case["dems"])]
    asked = set()
    last = None
    for k, s in enumerate(case["steps"]):
        i = s["which"] % len(made)
        dem, truth, g, c, method = made[i]
        what = "step %d (%s): " % (k, s["op"])
        if s["op"] in ("nearest", "bilinear"):
            (dem.set_interpolation_to_nearest if s["op"] == "nearest" else dem.set_interpolation_to_bilinear)()
            made[i][4] = s["op"]
            ctx.equal(dem.get_interpolation_method(), s["op"], what + "interpolation")
        elif s["op"] == "stats":
            v = truth[np.isfinite(truth)]
            ctx.close_to([dem.get_highest_alt(), dem.get_lowest_alt()], [v.max(), v.min()], what + "highest and lowest", rtol=1e-6)
            ctx.close_to(dem.get_mean_alt(), v.mean(), what + "mean", rtol=1e-4, atol=1e-4 * np.abs(v).max())
        elif s["op"] == "other_file":
            # the same raster with heights turned upside down, put behind the same model
            b, truth2, hole = dem_array(c)
            b = np.where(hole, b, b[::-1, ::-1] if not hole.any() else b)
            truth2 = b.astype(float)
            truth2[hole] = np.nan
            f = ctx.path("other%d.tif" % k)
            write_gtiff(f, b.astype(c["dtype"]), g, wkt(c["crs"]), c["nodata"])
            dem.set_geotiff_image(ImageFactory.geotiff.from_file(f))
            made[i][1] = truth2
        elif s["op"] == "other_place":
            # a raster of other ground, size and CRS (its values and missing samples stored the same way)
            c = {**s["there"], "nodata": c["nodata"], "dtype": c["dtype"], "given": c["given"]}
            b, truth2, _ = dem_array(c)
            g2 = geot(c["gt"], c["crs"])
            f = ctx.path("place%d.tif" % k)
            write_gtiff(f, b, g2, wkt(c["crs"]), None if c["given"] else c["nodata"])
            dem.set_geotiff_image(ImageFactory.geotiff.from_file(f))
            made[i][1:4] = [truth2, g2, c]
            last = None
            mid = apply_affine(g2, c["nx"] / 2, c["ny"] / 2)
            ctx.close_to(to_native(*mid, make_proj(c["crs"]), dem.get_projection()), mid, what + "the model's CRS", rtol=1e-9, atol=1e-6)
        else:
            q_ = last if s["repeat"] and last is not None else s
            last = q_
            cc = {"dem": c, "pseed": q_["pseed"], "n": q_["n"], "margin": q_["margin"], "two_d": q_["two_d"]}
            ix, iy, fx, fy = locations(cc)
            fx, fy = 0.2 + 0.6 * fx, 0.2 + 0.6 * fy
            crs = query_crs(s["crs"], c, g)
            X, Y = where_pixels(c, g, ix + fx, iy + fy, crs)
            z = ask(dem, X, Y, crs, cc, ctx)
            asked.add((i, method, s["crs"]))
            mm = 2e-3 / (111000.0 if make_proj(c["crs"]).crs.is_geographic else 0.3) if crs is not None else 0.0
            small = mm / min(abs(g[1]), abs(g[5]))
            if method == "nearest":
                if small > 0.1:
                    continue
                ctx.close_to(z, truth[np.clip(iy, 0, c["ny"] - 1), np.clip(ix, 0, c["nx"] - 1)], what + "elevation", rtol=1e-6, atol=1e-6)
            else:
                want, x1, x2, y1, y2 = ref_bilinear(truth, ix + fx, iy + fy)
                edge = (ix < 0) | (iy < 0) | (ix >= c["nx"] - 1) | (iy >= c["ny"] - 1)
                whole = np.isfinite(truth[y1, x1] + truth[y1, x2] + truth[y2, x1] + truth[y2, x2])
                nan_near = np.array([np.isnan(truth[max(0, b - 2):b + 3, max(0, a - 2):a + 3]).any() for a, b in zip(x1, y1)])
                ok = whole & ~(edge & nan_near)
                slack = 1e-5 * np.nanmax(np.abs(truth)) + 1e-6 + 4.0 * (np.nanmax(truth) - np.nanmin(truth)) * (small + pix_noise(g))
                d = np.abs(z - want)[ok]
                ctx.check(np.all(d <= slack), what + "elevation off by %r (allowed %r)" % (d.max() if d.size else 0, slack))
                ctx.check(np.all(np.isnan(z[~whole & ~edge])), what + "a missing sample takes part, yet a number is reported")
    ctx.nontrivial(len(asked) > 1)


class Sub_:
    """scratch files of one of several models"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def path(self, *parts):
        return self.ctx.path(self.name, *parts)


# one use after another
again(P, "nearest", ("n", "pseed", "two_d"), 60)
again(P, "bilinear", ("n", "pseed", "two_d"), 60)
again(P, "statistics", ("nx", "ny", "dtype", "nodata"), 40)
again(P, "constant", ("n", "two_d", "seed"), 40)
