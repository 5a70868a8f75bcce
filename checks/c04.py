"""C04  calling convention of every point calculator: batching, CRS, bands, purity."""
import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import results_stay, sub
from harness.gens import fixed, laid, logq, rng, seeds, uint
from checks.c01 import CRS_NAMES, gsd_matrix, to_native, world_crs

P = "C04"
results_stay(P)


def tol_px(c, case):
    """pixel tolerance for two computations that differ only in rounding / CRS conversion noise"""
    return 1e-6


grid = fixed(cam=cams.any_camera_case(), ny=st.integers(1, 4), nx=st.integers(1, 4), seed=seeds(),
             crs=st.sampled_from(CRS_NAMES), const_alt=st.booleans())


def grid_points(c, ny, nx, seed, const):
    X, Y, Z = cams.ground_points(c, {"n": ny * nx, "pseed": seed, "alt": "const" if const else "spread"})
    if const:
        Z = np.zeros(ny * nx) + Z[0]
    return X, Y, Z


@sub(P, "forward_batching", grid, quick=700, rule="a 2-d batch of at least 2 x 2 points, or a batch in a foreign CRS")
def forward_batching(case, ctx):
    """2-d, 1-d and scalar calls agree point by point, keep their shape and leave their arguments alone"""
    c, ny, nx = case["cam"], case["ny"], case["nx"]
    X, Y, Z = grid_points(c, ny, nx, case["seed"], case["const_alt"])
    pc = cams.build(c)
    crs = world_crs(case["crs"], c)
    if crs is not None:
        X, Y = from_native(X, Y, crs, pc.get_projection())
    ref = cams.reference(c)
    x1, y1 = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy(), world_proj=crs)
    ctx.equal((np.shape(x1), np.shape(y1)), ((ny * nx,), (ny * nx,)), "shape of a 1-d result")
    X2, Y2, Z2 = (laid(a.reshape(ny, nx), case["seed"] // 7 ** i) for i, a in enumerate((X, Y, Z)))
    x2, y2 = pc.lon_lat_alt_to_pixel_x_y(X2, Y2, Z2, world_proj=crs)
    ctx.equal((np.shape(x2), np.shape(y2)), ((ny, nx), (ny, nx)), "shape of a 2-d result")
    for a, b, nm in ((X2, X, "x"), (Y2, Y, "y"), (Z2, Z, "altitude")):
        ctx.equal_arrays(a, b.reshape(ny, nx), "the caller's %s array after the call" % nm)
    ctx.close_to(np.ravel(x2), x1, "2-d against 1-d, pixel x", rtol=1e-9, atol=1e-6)
    ctx.close_to(np.ravel(y2), y1, "2-d against 1-d, pixel y", rtol=1e-9, atol=1e-6)
    for i in sorted({0, ny * nx - 1, (ny * nx) // 2}):
        sx, sy = pc.lon_lat_alt_to_pixel_x_y(float(X[i]), float(Y[i]), float(Z[i]), world_proj=crs)
        ctx.equal((np.ndim(sx), np.ndim(sy)), (0, 0), "dimensions of a scalar result")
        ctx.close_to([sx, sy], [x1[i], y1[i]], "scalar against array", rtol=1e-9, atol=1e-6)
    # numbers of any type: whole heights, and places as numpy's own numbers
    number = [np.float64, np.float32, np.int64, np.int32, np.int16, int][case["seed"] % 6]
    zw = float(int(max(-30000, min(30000, np.round(Z[0])))))
    pl = np.float64
    gx, gy = float(pl(X[0])), float(pl(Y[0]))
    wx, wy = pc.lon_lat_alt_to_pixel_x_y(np.array([gx]), np.array([gy]), np.array([zw]), world_proj=crs)
    for place in (pl, float):
        sx, sy = pc.lon_lat_alt_to_pixel_x_y(place(gx), place(gy), number(zw), world_proj=crs)
        ctx.equal((np.ndim(sx), np.ndim(sy)), (0, 0), "dimensions of the result for numbers of type %s" % number.__name__)
        ctx.close_to([sx, sy], [wx[0], wy[0]], "place and height given as %s" % number.__name__, rtol=1e-9, atol=1e-6)
    wx, wy = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), np.zeros(ny * nx) + zw, world_proj=crs)
    sx, sy = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), number(zw), world_proj=crs)
    ctx.close_to(sx, wx, "one height for all points, given as %s, pixel x" % number.__name__, rtol=1e-9, atol=1e-6)
    ctx.close_to(sy, wy, "one height for all points, given as %s, pixel y" % number.__name__, rtol=1e-9, atol=1e-6)
    if case["const_alt"]:
        # a single altitude stands for the same altitude everywhere, in any arrangement of the points
        for shp in ((ny * nx,), (ny, nx)):
            if len(shp) == 2:
                xa, ya = pc.lon_lat_alt_to_pixel_x_y(X.reshape(shp), Y.reshape(shp), float(Z[0]), world_proj=crs)
            else:
                xa, ya = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), float(Z[0]), world_proj=crs)
            ctx.close_to(np.ravel(xa), x1, "one altitude for all points", rtol=1e-9, atol=1e-6)
            ctx.close_to(np.ravel(ya), y1, "one altitude for all points", rtol=1e-9, atol=1e-6)
    # whole numbers are coordinates, pixels and altitudes like any other, whatever their type
    if (crs is None and cams.proj_of(c).crs.is_projected) or case["crs"] == "3857":
        Xi, Yi = np.round(X).astype(np.int64), np.round(Y).astype(np.int64)
        xf, yf = pc.lon_lat_alt_to_pixel_x_y(Xi.astype(float), Yi.astype(float), Z.copy(), world_proj=crs)
        xi, yi = pc.lon_lat_alt_to_pixel_x_y(Xi.copy(), Yi.copy(), float(Z[0]) if case["const_alt"] else Z.copy(), world_proj=crs)
        ctx.close_to(xi, xf, "integer coordinates, pixel x", rtol=1e-9, atol=1e-6)
        ctx.close_to(yi, yf, "integer coordinates, pixel y", rtol=1e-9, atol=1e-6)
        for kind in (int, np.int64, np.int32):
            sx, sy = pc.lon_lat_alt_to_pixel_x_y(kind(Xi[0]), kind(Yi[0]), float(Z[0]), world_proj=crs)
            ctx.equal((np.ndim(sx), np.ndim(sy)), (0, 0), "dimensions of the result for coordinates of type %s" % kind.__name__)
            ctx.close_to([sx, sy], [xf[0], yf[0]], "scalar coordinates of type %s" % kind.__name__, rtol=1e-9, atol=1e-6)
    Zi = np.round(Z).astype(np.int64)
    xf, yf = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Zi.astype(float), world_proj=crs)
    xi, yi = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Zi, world_proj=crs)
    ctx.close_to(xi, xf, "integer altitudes, pixel x", rtol=1e-9, atol=1e-6)
    ctx.close_to(yi, yf, "integer altitudes, pixel y", rtol=1e-9, atol=1e-6)
    # no altitude means altitude zero
    xn, yn = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), None, world_proj=crs)
    xz, yz = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), np.zeros(ny * nx), world_proj=crs)
    ctx.close_to(xn, xz, "altitude omitted", rtol=1e-9, atol=1e-6)
    ctx.close_to(yn, yz, "altitude omitted", rtol=1e-9, atol=1e-6)
    # coordinates in another CRS mean the same place
    if crs is not None:
        Xn, Yn = to_native(X, Y, crs, pc.get_projection())
        rx, ry = ref.project(Xn, Yn, Z)
        G = gsd_matrix(ref, c, Xn, Yn, Z)
        gsd = np.sqrt((G ** 2).sum(axis=(1, 2))).min()
        unit = 1.0 if cams.proj_of(c).crs.is_projected else 1.0 / 111000.0
        ctx.close_to(x1, rx, "pixel x of points given in another CRS", rtol=1e-7, atol=1e-3 * unit / gsd + 1e-5)
        ctx.close_to(y1, ry, "pixel y of points given in another CRS", rtol=1e-7, atol=1e-3 * unit / gsd + 1e-5)
    # the same question again gets the same answer
    xb, yb = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy(), world_proj=crs)
    ctx.equal_arrays(xb, x1, "asked again, pixel x")
    ctx.equal_arrays(yb, y1, "asked again, pixel y")
    ctx.label(c["kind"], "crs:" + case["crs"])
    ctx.nontrivial((ny > 1 and nx > 1) or crs is not None)


def from_native(x, y, dst, src):
    from harness.rasters import transformer
    return transformer(src, dst).transform(np.asarray(x), np.asarray(y))


@sub(P, "inverse_batching", grid, quick=500, rule="a 2-d batch of at least 2 x 2 points, or a batch in a foreign CRS")
def inverse_batching(case, ctx):
    c, ny, nx = case["cam"], case["ny"], case["nx"]
    X, Y, Z = grid_points(c, ny, nx, case["seed"], case["const_alt"])
    pc = cams.build(c)
    ref = cams.reference(c)
    crs = world_crs(case["crs"], c)
    x, y = ref.project(X, Y, Z)
    thr = 1e-4
    n = ny * nx
    G = gsd_matrix(ref, c, X, Y, Z)
    foot = np.sqrt((G ** 2).sum(axis=(1, 2)))
    unit = 1.0 if cams.proj_of(c).crs.is_projected else 1.0 / 111000.0
    tol = foot * (4 * thr + 1e-9 * (np.abs(x) + np.abs(y) + 1)) + 1e-4 * unit

    def agree(lon, lat, what, idx=slice(None)):
        lon, lat = np.ravel(lon), np.ravel(lat)
        if crs is not None:
            lon, lat = to_native(lon, lat, crs, pc.get_projection())
        d = np.hypot(np.asarray(lon) - X[idx], np.asarray(lat) - Y[idx])
        ctx.check(np.all(d <= tol[idx]), "%s: ground point off by %r, allowed %r" % (what, float(np.max(d)), float(tol.max())))

    kw = dict(world_proj=crs, pixel_error_threshold=thr)
    lon1, lat1 = pc.pixel_x_y_alt_to_lon_lat(x.copy(), y.copy(), Z.copy(), **kw)
    ctx.equal(np.shape(lon1), (n,), "shape of a 1-d result")
    agree(lon1, lat1, "1-d")
    x2, y2, z2 = (laid(a.reshape(ny, nx), case["seed"] // 7 ** i) for i, a in enumerate((x, y, Z)))
    lon2, lat2 = pc.pixel_x_y_alt_to_lon_lat(x2, y2, z2, **kw)
    ctx.equal((np.shape(lon2), np.shape(lat2)), ((ny, nx), (ny, nx)), "shape of a 2-d result")
    agree(lon2, lat2, "2-d")
    ctx.equal_arrays(x2, x.reshape(ny, nx), "the caller's pixel x array")
    ctx.equal_arrays(y2, y.reshape(ny, nx), "the caller's pixel y array")
    ctx.equal_arrays(z2, Z.reshape(ny, nx), "the caller's altitude array")
    i = case["seed"] % n
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(float(x[i]), float(y[i]), float(Z[i]), **kw)
    ctx.equal((np.ndim(lon), np.ndim(lat)), (0, 0), "dimensions of a scalar result")
    agree([lon], [lat], "scalar", slice(i, i + 1))
    if case["const_alt"]:
        lon, lat = pc.pixel_x_y_alt_to_lon_lat(x.copy(), y.copy(), float(Z[0]), **kw)
        agree(lon, lat, "one altitude for all pixels")
    # whole pixels, as integers (a few pixels around the place, seen from its own height)
    if c["kind"] != "geotiff":
        xi, yi = np.round(x).astype(np.int64), np.round(y).astype(np.int64)
        lon, lat = pc.pixel_x_y_alt_to_lon_lat(xi, yi, float(Z[0]) if case["const_alt"] else Z.copy(), pixel_error_threshold=thr)
        bx, by = ref.project(np.asarray(lon), np.asarray(lat), Z)
        e = max(np.abs(bx - xi).max(), np.abs(by - yi).max())
        ctx.check(e <= 2 * thr + 1e-9 * (np.abs(x) + np.abs(y)).max() + 1e-4 / foot.min() * unit, "integer pixels: the place found projects %g pixels off" % e)
    ctx.label(c["kind"], "crs:" + case["crs"])
    ctx.nontrivial((ny > 1 and nx > 1) or crs is not None)


def same_zone(c):
    return {**c, "zone": 18, "south": False}


sensor = fixed(cams=st.lists(cams.frame_camera_case().map(same_zone), min_size=1, max_size=4), seed=seeds(),
               order=st.permutations(range(4)), how=st.sampled_from(["set", "add", "update"]), n=st.integers(1, 6))


@sub(P, "multi_band_sensor", sensor, quick=250, rule="at least two bands with different cameras")
def multi_band_sensor(case, ctx):
    """a sensor made of one camera per band answers, for each band, exactly what that band's camera answers"""
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model \
        import EarthOverheadSensorModel
    base = case["cams"][0]
    cs = [{**c, "X": base["X"], "Y": base["Y"], "z0": base["z0"], "H": base["H"]} for c in case["cams"]]
    pcs = [cams.build(c) for c in cs]
    model = EarthOverheadSensorModel()
    if case["how"] == "set":
        model.set_point_calcs(list(pcs))
    else:
        for pc in (pcs if case["how"] == "add" else reversed(pcs)):
            model.add_point_calc(pc)
        if case["how"] == "update":
            for i, pc in enumerate(pcs):
                model.update_point_calc(i, pc)
    model.set_projection(cams.utm_proj(18, False))
    model.set_approximate_lon_lat_center(base["X"], base["Y"])
    ctx.equal(model.get_num_point_calcs(), len(pcs), "number of bands")
    ctx.check(all(model.get_point_calc(i) is p for i, p in enumerate(pcs)), "the camera of each band")
    ctx.check(list(model.get_point_calcs()) == pcs, "the list of cameras")
    for b in [i for i in case["order"] if i < len(cs)]:
        c = cs[b]
        X, Y, Z = cams.ground_points(c, {"n": case["n"], "pseed": case["seed"], "alt": "const"})
        rx, ry = cams.reference(c).project(X, Y, Z)
        x, y = model.lon_lat_alt_to_pixel_x_y(X, Y, Z, band=b)
        ctx.close_to(x, rx, "band %d pixel x" % b, rtol=1e-7, atol=1e-3)
        ctx.close_to(y, ry, "band %d pixel y" % b, rtol=1e-7, atol=1e-3)
        lon, lat = model.pixel_x_y_alt_to_lon_lat(rx, ry, Z, band=b)
        x, y = model.lon_lat_alt_to_pixel_x_y(lon, lat, Z, band=b)
        ctx.check(max(np.abs(x - rx).max(), np.abs(y - ry).max()) < 0.011,
                  "band %d: pixel -> ground -> pixel moved by %g" % (b, max(np.abs(x - rx).max(), np.abs(y - ry).max())))
        foot = np.sqrt((gsd_matrix(cams.reference(c), c, X, Y, Z) ** 2).sum(axis=(1, 2)))
        d = np.hypot(lon - X, lat - Y)
        ctx.check(np.all(d <= 0.05 * foot + 1e-5), "band %d ground point off by %r" % (b, d.max()))
    ctx.nontrivial(len(cs) > 1)


# thousands of points in one call
big = st.tuples(grid, logq(300, 30000), st.sampled_from([1, 2, 7])).map(
    lambda t: {**t[0], "ny": t[2], "nx": max(1, int(t[1]) // t[2])})
sub(P, "many_points", big, quick=25, rule="a 2-d batch, or a batch in a foreign CRS")(forward_batching)
sub(P, "many_pixels", big, quick=20, rule="a 2-d batch, or a batch in a foreign CRS")(inverse_batching)


step = fixed(which=st.integers(0, 2), op=st.sampled_from(["fwd", "inv"]), crs=st.sampled_from(CRS_NAMES), seed=seeds(),
             n=st.integers(1, 6), alt=st.sampled_from(["zero", "spread", "const"]), two_d=st.booleans(),
             repeat=st.booleans(), thr=st.sampled_from([1e-4, 1e-4, 0.3]), dz=st.sampled_from([0.0, 0.0, 1e-2, 0.2, -0.3]))
conv = fixed(cams=st.lists(cams.any_camera_case(), min_size=1, max_size=3), same_kind=st.booleans(),
             steps=st.lists(step, min_size=3, max_size=8), reuse=st.booleans())


def one_sensor(cs):
    """one camera per band in a sensor; what is asked of a camera is asked of the sensor for its band"""
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model \
        import EarthOverheadSensorModel
    model = EarthOverheadSensorModel()
    model.set_point_calcs([cams.build(c) for c in cs])
    model.set_projection(cams.utm_proj(18, False))
    model.set_approximate_lon_lat_center(cs[0]["X"], cs[0]["Y"])

    class Band:
        def __init__(self, band):
            self.band = band

        def get_projection(self):
            return model.get_projection()

        def lon_lat_alt_to_pixel_x_y(self, *a, **k):
            return model.lon_lat_alt_to_pixel_x_y(*a, band=self.band, **k)

        def pixel_x_y_alt_to_lon_lat(self, *a, **k):
            return model.pixel_x_y_alt_to_lon_lat(*a, band=self.band, **k)

        def pixel_x_y_to_lon_lat_alt(self, *a, **k):
            return model.pixel_x_y_to_lon_lat_alt(*a, band=self.band, **k)

    return [Band(b) for b in range(len(cs))]


@sub(P, "conversations", conv, quick=160, rule="at least two different CRSs, cameras or kinds of question in one history")
def conversations(case, ctx):
    """any history of questions to several cameras: every answer is the one the camera's own parameters give"""
    if case.get("sensor"):
        base = case["cams"][0]
        cs = [{**c, "X": base["X"], "Y": base["Y"], "z0": base["z0"], "H": base["H"]} for c in case["cams"]]
        pcs = one_sensor(cs)
    else:
        cs = [({**case["cams"][0], "X": c["X"], "Y": c["Y"]} if case["same_kind"] and "X" in c and "X" in case["cams"][0] else c)
              for c in case["cams"]]
        pcs = [cams.build(c) for c in cs]
    prev = None
    buffers = {}

    def given(k, a, shape):
        """the caller's array: its own each time, or the same one filled anew"""
        a = np.reshape(np.array(a, dtype=float), shape)
        if not case["reuse"]:
            return laid(a, case["steps"][0]["seed"] // 7 ** ("abz".find(k) % 3))
        b = buffers.setdefault((k, shape), a)
        b[...] = a
        return b

    for k, s in enumerate(case["steps"]):
        i = s["which"] % len(cs)
        c, pc, ref = cs[i], pcs[i], cams.reference(cs[i])
        dz = 0.0
        if s["repeat"] and prev is not None and prev[0] == i:
            n, alt, seed, shape = prev[1:]            # the same places again, asked in another way
            dz = s["dz"]                              # or with other heights (a share of the distance to the camera)
        else:
            n, alt, seed = s["n"], s["alt"], s["seed"]
            shape = (1, n) if s["two_d"] else (n,)
        prev = (i, n, alt, seed, shape)
        crs = world_crs(s["crs"], c)
        X, Y, Z = cams.ground_points(c, {"n": n, "pseed": seed, "alt": alt})
        Z = np.zeros(n) + Z
        if dz and "H" in c and alt != "zero":
            Z = Z + dz * c["H"] * rng(seed).uniform(-0.5, 0.5, n)
        G = gsd_matrix(ref, c, X, Y, Z)
        foot = np.sqrt((G ** 2).sum(axis=(1, 2)))
        unit = 1.0 if cams.proj_of(c).crs.is_projected else 1.0 / 111000.0
        rx, ry = ref.project(X, Y, Z)
        what = "step %d (%s, camera %d, CRS %s): " % (k, s["op"], i, s["crs"])
        if s["op"] == "fwd":
            A, B = (X, Y) if crs is None else from_native(X, Y, crs, pc.get_projection())
            x, y = pc.lon_lat_alt_to_pixel_x_y(given("a", A, shape), given("b", B, shape), given("z", Z, shape), world_proj=crs)
            ctx.equal((np.shape(x), np.shape(y)), (shape, shape), what + "shape")
            tol = 1e-3 * unit / foot.min() + 1e-5
            ctx.close_to(np.ravel(x), rx, what + "pixel x", rtol=1e-7, atol=tol)
            ctx.close_to(np.ravel(y), ry, what + "pixel y", rtol=1e-7, atol=tol)
        else:
            lon, lat = pc.pixel_x_y_alt_to_lon_lat(given("a", rx, shape), given("b", ry, shape), given("z", Z, shape), world_proj=crs,
                                                   pixel_error_threshold=s["thr"])
            ctx.equal((np.shape(lon), np.shape(lat)), (shape, shape), what + "shape")
            lon, lat = np.ravel(lon), np.ravel(lat)
            if crs is not None:
                lon, lat = to_native(lon, lat, crs, pc.get_projection())
            tol = foot * (4 * s["thr"] + 1e-9 * (np.abs(rx) + np.abs(ry) + 1)) + 1e-3 * unit
            d = np.hypot(lon - X, lat - Y)
            ctx.check(np.all(d <= tol), what + "ground point off by %r, allowed %r" % (float(d.max()), float(tol.max())))
    ctx.nontrivial(len({(s["which"] % len(cs), s["op"], s["crs"]) for s in case["steps"]}) > 1)


sub(P, "sensor_conversations", fixed(cams=st.lists(cams.frame_camera_case().map(same_zone), min_size=2, max_size=4), same_kind=st.just(False),
                                     steps=st.lists(step, min_size=3, max_size=8), reuse=st.booleans(), sensor=st.just(True)),
    quick=120, rule="at least two different CRSs, bands or kinds of question in one history")(conversations)


regeo = fixed(cams=st.lists(cams.geotiff_case(), min_size=2, max_size=4), seed=seeds(), n=st.integers(1, 5))


@sub(P, "georeferencing_changed", regeo, quick=120, rule="a second georeferencing after questions about the first")
def georeferencing_changed(case, ctx):
    """a map image's converter given another geotransform and CRS answers for those from then on"""
    pc = cams.build(case["cams"][0])
    for k, c in enumerate(case["cams"]):
        if k:
            pc.set_geot(cams.geotiff_geot(c))
            pc.set_projection(cams.proj_of(c))
        ref = cams.reference(c)
        X, Y, Z = cams.ground_points(c, {"n": case["n"], "pseed": case["seed"], "alt": "zero"})
        rx, ry = ref.project(X, Y, Z)
        x, y = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy())
        # map coordinates up to 1e7 m divided by pixels of centimetres
        tol = 1e-6 + 4e-9 / min(c["gx"], c["gy"]) * (1 if c["crs"] == "utm" else 1e-5 * 1e5)
        ctx.close_to(x, rx, "georeferencing %d, pixel x" % k, rtol=1e-8, atol=tol)
        ctx.close_to(y, ry, "georeferencing %d, pixel y" % k, rtol=1e-8, atol=tol)
        lon, lat = pc.pixel_x_y_alt_to_lon_lat(rx.copy(), ry.copy(), Z.copy())
        ctx.close_to(lon, X, "georeferencing %d, ground x" % k, rtol=1e-12, atol=1e-6 if c["crs"] == "utm" else 1e-11)
        ctx.close_to(lat, Y, "georeferencing %d, ground y" % k, rtol=1e-12, atol=1e-6 if c["crs"] == "utm" else 1e-11)
    ctx.nontrivial()
