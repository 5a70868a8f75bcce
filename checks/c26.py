"""C26  Coordinate reference systems: descriptions, local projections, reprojected geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import rasters
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds, side, uint

P = "C26"
results_stay(P)
assume_note(P, "CRS descriptions without a shift of datum; longitude/latitude in that order")
A, F = 6378137.0, 1 / 298.257223563

params = fixed(kind=st.sampled_from(["epsg", "tmerc", "lcc", "aea", "stere", "laea", "longlat", "merc"]), code=st.sampled_from([4326, 3857, 32610, 32733, 5070, 3413, 3031, 2227, 2193, 3035, 6933, 26915, 4269, 3979]),
               lon0=q(-170, 170), lat0=q(-60, 60), p1=q(15, 30), p2=q(31, 60), k=q(0.99, 1.01), fe=q(-1e6, 5e6), fn=q(-1e6, 5e6), unit=st.sampled_from(["m", "us-ft", "ft", "km"]),
               n=side(8, 400), seed=seeds(), pretty=st.booleans(), form=st.sampled_from(["scalar", "array"]))


def proj4(c):
    u = " +units=%s" % c["unit"]
    tail = " +x_0=%r +y_0=%r +datum=WGS84%s +no_defs" % (c["fe"], c["fn"], u)
    return {"tmerc": "+proj=tmerc +lat_0=%r +lon_0=%r +k=%r" % (c["lat0"], c["lon0"], c["k"]),
            "lcc": "+proj=lcc +lat_0=%r +lon_0=%r +lat_1=%r +lat_2=%r" % (c["lat0"], c["lon0"], c["p1"], c["p2"]),
            "aea": "+proj=aea +lat_0=%r +lon_0=%r +lat_1=%r +lat_2=%r" % (c["lat0"], c["lon0"], c["p1"], c["p2"]),
            "stere": "+proj=stere +lat_0=%r +lon_0=%r +k=%r" % (c["lat0"], c["lon0"], c["k"]),
            "laea": "+proj=laea +lat_0=%r +lon_0=%r" % (c["lat0"], c["lon0"]),
            "merc": "+proj=merc +lon_0=%r +k=%r" % (c["lon0"], c["k"])}[c["kind"]] + tail


@sub(P, "descriptions", params, quick=250, rule="a projected CRS")
def descriptions(case, ctx):
    """a projection made from WKT places points where the described CRS places them, x and y in the units of the CRS"""
    from osgeo import osr
    from pyproj import CRS, Transformer
    from resippy.utils import proj_utils
    c = case
    s = osr.SpatialReference()
    if c["kind"] == "epsg":
        s.ImportFromEPSG(c["code"])
    elif c["kind"] == "longlat":
        s.ImportFromProj4("+proj=longlat +datum=WGS84 +no_defs")
    else:
        s.ImportFromProj4(proj4(c))
    wkt = s.ExportToPrettyWkt() if c["pretty"] else s.ExportToWkt()
    crs = CRS.from_wkt(wkt)
    g = rng(c["seed"])
    if c["kind"] == "epsg":
        lo = {4326: (0, 0), 3857: (10, 20), 32610: (-123, 40), 32733: (15, -30), 5070: (-96, 38), 3413: (-45, 80), 3031: (20, -80), 2227: (-120, 37), 2193: (173, -41), 3035: (10, 52), 6933: (30, 10),
              26915: (-93, 40), 4269: (-90, 40), 3979: (-95, 55)}[c["code"]]
    else:
        lo = (c["lon0"], c["lat0"])
    lon = lo[0] + g.uniform(-2, 2, c["n"])
    lat = lo[1] + g.uniform(-2, 2, c["n"])
    t = Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)
    want = t.transform(lon, lat)
    p = proj_utils.wkt_to_proj(wkt)
    scale = 1.0 if crs.is_geographic else crs.axis_info[0].unit_conversion_factor
    tol = 1e-9 if crs.is_geographic else 1e-3 / scale
    if crs.is_geographic:
        ctx.check(p.crs.is_geographic, "a geographic CRS became %r" % p.srs)
        t4 = Transformer.from_proj(p, p.crs.geodetic_crs, always_xy=True)
        got = t4.transform(lon, lat)
    else:
        got = p(lon, lat) if c["form"] == "array" else tuple(np.array(v) for v in zip(*[p(float(a), float(b)) for a, b in zip(lon, lat)]))
    ctx.close_to(got[0], want[0], "x in the CRS", rtol=1e-12, atol=tol)
    ctx.close_to(got[1], want[1], "y in the CRS", rtol=1e-12, atol=tol)
    txt = proj_utils.wkt_to_proj_string(wkt)
    ctx.check(isinstance(txt, str) and "+proj=" in txt, "PROJ string %r" % (txt,))
    again = rasters.transformer(p, proj_utils.wkt_to_proj(crs.to_wkt("WKT1_GDAL"))).transform(*want)
    ctx.close_to(again[0], want[0], "x by another rendering of the WKT", rtol=1e-12, atol=tol)
    ctx.close_to(again[1], want[1], "y by another rendering of the WKT", rtol=1e-12, atol=tol)
    ref = proj_utils.wkt_to_osr_spatialref(wkt)
    ctx.check(ref.IsSame(s) == 1, "the spatial reference differs from the WKT")
    ctx.label(c["kind"])
    ctx.nontrivial(not crs.is_geographic)


spot = fixed(lon=st.one_of(q(-179.999, 179.999), st.integers(-30, 29).map(lambda z: float(z * 6)), st.sampled_from([3.0, 9.0, 21.0, 33.0, 5.9999, 6.0001])), lat=st.one_of(q(-79.9, 83.9), st.sampled_from([0.0, -1e-9, 1e-9, 56.0, 63.9999, 64.0, 72.0])),
             kind=st.sampled_from(["float", "numpy", "int"]), az=q(0, 360), d=logq(1, 3000))


@sub(P, "local_utm", spot, quick=400, rule="a place off the equator")
def local_utm(case, ctx):
    """the local UTM projection is the standard zone of the place: true distances within 0.2 percent, no negative northings in either hemisphere"""
    from pyproj import Geod, Proj
    from resippy.utils import proj_utils
    lon, lat = case["lon"], case["lat"]
    if case["kind"] == "int":
        lon, lat = int(lon), int(lat)
    elif case["kind"] == "numpy":
        lon, lat = np.float64(lon), np.float64(lat)
    p = proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)
    x, y = p(lon, lat)
    ctx.check(100000 <= x <= 900000, "easting %r" % x)
    ctx.check(0 <= y <= 1e7, "northing %r" % y)
    # zones with the exceptions of southern Norway and Svalbard
    z = int((lon + 180) // 6) % 60 + 1
    if 56 <= lat < 64 and 3 <= lon < 12:
        z = 32
    elif 72 <= lat <= 84 and 0 <= lon < 42:
        z = 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    # zone edges belong to either neighbour
    zs = {z}
    if abs(lon / 3 - round(lon / 3)) < 1e-6:
        zs |= {z % 60 + 1, (z - 2) % 60 + 1}
    souths = [lat < 0] if abs(lat) > 1e-6 else [True, False]
    near_edge = any(abs(lat - v) < 1e-6 for v in (56, 64, 72))
    if not near_edge:
        wants = [_utm(zz, s)(lon, lat) for zz in zs for s in souths]
        ctx.check(any(abs(w[0] - x) < 1e-3 and abs(w[1] - y) < 1e-3 for w in wants), "UTM coordinates (%r, %r), expected %s" % (x, y, wants))
    g = Geod(a=A, f=F)
    lon2, lat2, _ = g.fwd(lon, lat, case["az"], case["d"])
    if abs(lon2 - lon) < 90:
        x2, y2 = p(lon2, lat2)
        r = math.hypot(x2 - x, y2 - y) / case["d"]
        ctx.check(abs(r - 1) < 2e-3, "a distance of %r m measures %r m" % (case["d"], r * case["d"]))
    b = p(x, y, inverse=True)
    ctx.check(abs((b[0] - lon + 180) % 360 - 180) < 1e-9 and abs(b[1] - lat) < 1e-9, "back to longitude/latitude: %r" % (b,))
    ctx.nontrivial(lat != 0)


_UTM = {}


def _utm(z, south):
    from pyproj import Proj
    if (z, south) not in _UTM:
        _UTM[z, south] = Proj("epsg:%d" % ((32700 if south else 32600) + z))
    return _UTM[z, south]


shape = fixed(kind=st.sampled_from(["point", "line", "polygon", "holes", "multi", "points", "collection"]), seed=seeds(), n=st.one_of(uint(3, 12), uint(3, 12), uint(3, 12), uint(3, 12), uint(3, 12), uint(3, 12), uint(12, 120)), src=rasters.crs_strategy(), dst=rasters.crs_strategy(), u=q(0, 1), v=q(0, 1), size=logq(1, 2e4), tall=st.sampled_from([False, False, True]))
PLACE = {2227: (-120.5, 37.5), 3435: (-88, 40), 5070: (-96, 38), 3413: (-45, 80), 3031: (20, -80), 2154: (3, 46), 2193: (173, -41), 3035: (10, 52), 26915: (-93, 40), 6933: (30, 10), 4269: (-90, 40)}


def spot_of(*crss):
    """a place valid in all CRSs given, or None"""
    out = None
    for c in crss:
        if c["kind"] == "epsg" and c["code"] != 6933:
            here = PLACE[c["code"]]
        elif c["kind"] in ("utm", "epsg_utm"):
            here = (c["zone"] * 6 - 183, -30 if c["south"] else 40)
        else:
            continue
        if out is not None and out != here:
            return None
        out = here
    return out or (30, 10)


@sub(P, "reprojected_geometry", shape, quick=300, rule="two different CRSs")
def reprojected_geometry(case, ctx):
    """reprojecting a geometry transforms every vertex, keeps its kind and parts, and going back restores it"""
    from shapely import geometry as sg
    from resippy.utils import photogrammetry_utils as pu
    c = case
    src, dst = c["src"], c["dst"]
    at = spot_of(src, dst)
    if at is None:
        dst = {"kind": "4326"} if c["seed"] % 2 else {"kind": "3857"}
        at = spot_of(src, dst)
    ps, pd = rasters.make_proj(src), rasters.make_proj(dst)
    geo = rasters.make_proj({"kind": "4326"})
    x0, y0 = rasters.transformer(geo, ps).transform(*at)
    deg = src["kind"] == "4326" or src.get("code") == 4269
    s = c["size"] / (111e3 if deg else 1.0)
    g = rng(c["seed"])

    def ring(cx, cy, r, n):
        a = np.sort(g.uniform(0, 2 * np.pi, n))
        a = np.linspace(0, 2 * np.pi, n, endpoint=False) + (a - a) + g.uniform(0, 1.0 / n)
        rr = r * g.uniform(0.7, 1, n)
        return [(float(cx + q_ * math.cos(t)), float(cy + q_ * math.sin(t))) for q_, t in zip(rr, a)]
    pts = ring(x0, y0, s, c["n"])
    k = c["kind"]
    if k == "point":
        geom = sg.Point(pts[0])
    elif k == "line":
        geom = sg.LineString(pts)
    elif k == "polygon":
        geom = sg.Polygon(pts)
    elif k == "holes":
        geom = sg.Polygon(ring(x0, y0, s, c["n"] + 2), [ring(x0, y0, s * 0.3, c["n"])])
    elif k == "multi":
        geom = sg.MultiPolygon([sg.Polygon(ring(x0, y0, s, c["n"])), sg.Polygon(ring(x0 + 3 * s, y0, s, c["n"]))])
    elif k == "points":
        geom = sg.MultiPoint(pts)
    else:
        geom = sg.GeometryCollection([sg.Point(pts[0]), sg.LineString(pts)])
    def coords(gm):
        import shapely
        return shapely.get_coordinates(gm)
    if c["tall"]:
        import shapely
        geom = shapely.transform(shapely.force_3d(geom), lambda v: np.column_stack([v[:, :2], 1450 + 1500 * np.sin((v[:, 0] - x0) / s * 3 + (v[:, 1] - y0) / s)]), include_z=True)
        ctx.label("with heights")
    out = pu.reproject_geometry(geom, ps, pd)
    ctx.equal(out.geom_type, geom.geom_type, "kind of geometry")

    a, b = coords(geom), coords(out)
    ctx.equal(b.shape, a.shape, "vertices")
    want = rasters.transformer(ps, pd).transform(a[:, 0], a[:, 1])
    ctx.equal(out.has_z, geom.has_z, "whether there are heights")
    if c["tall"]:
        import shapely
        z0, z1 = (shapely.get_coordinates(v, include_z=True)[:, 2] for v in (geom, out))
        ctx.close_to(z1, z0, "heights of the vertices", rtol=1e-9, atol=1e-6)
    t = 1e-9 if dst["kind"] == "4326" or dst.get("code") == 4269 else 1e-3
    ctx.close_to(b[:, 0], want[0], "x of the vertices", rtol=1e-12, atol=t)
    ctx.close_to(b[:, 1], want[1], "y of the vertices", rtol=1e-12, atol=t)
    back = coords(pu.reproject_geometry(out, pd, ps))
    # PROJ's own inverses are only good to about a millimetre for some equal-area projections
    ctx.close_to(back, a, "vertices after going back", rtol=1e-10, atol=2e-7 if deg else 2e-2)
    ctx.label(k)
    ctx.nontrivial(ps.srs != pd.srs)


move = fixed(src=rasters.crs_strategy(), n=side(6, 600), seed=seeds(), e=q(-2e4, 2e4), nn=q(-2e4, 2e4), e2=q(-2e4, 2e4), n2=q(-2e4, 2e4), form=st.sampled_from(["array", "2d", "scalar"]))


@sub(P, "shifted_points", move, quick=250, rule="a shift in both directions")
def shifted_points(case, ctx):
    """points shifted by metres move by that much in web Mercator; shifts add up, and shifting back restores them; the caller's arrays are left alone"""
    from resippy.utils import photogrammetry_utils as pu
    c = case
    src = c["src"]
    at = spot_of(src)
    if src.get("code") in (3413, 3031):
        at = (at[0], at[1] * 0.9)
    ps = rasters.make_proj(src)
    geo = rasters.make_proj({"kind": "4326"})
    g = rng(c["seed"])
    lon, lat = at[0] + g.uniform(-1, 1, c["n"]), at[1] + g.uniform(-1, 1, c["n"])
    x, y = (np.array(v) for v in rasters.transformer(geo, ps).transform(lon, lat))
    if c["form"] == "2d":
        x, y = x[:, None], y[:, None]
    elif c["form"] == "scalar":
        x, y = float(x[0]), float(y[0])
    x0, y0 = np.array(x), np.array(y)
    sx, sy = pu.shift_points_by_meters(c["e"], c["nn"], ps, x, y)
    ctx.equal_arrays(np.array(x), x0, "the caller's x")
    ctx.equal_arrays(np.array(y), y0, "the caller's y")
    ctx.equal(np.shape(sx), np.shape(x), "shape")

    def merc(xx, yy):
        lo, la = rasters.transformer(ps, geo).transform(xx, yy)
        return A * np.radians(lo), A * np.log(np.tan(np.pi / 4 + np.radians(la) / 2))
    m0, m1 = merc(x, y), merc(sx, sy)
    ctx.close_to(m1[0] - m0[0], np.zeros(np.shape(x)) + c["e"], "metres east", rtol=0, atol=0.02)
    ctx.close_to(m1[1] - m0[1], np.zeros(np.shape(x)) + c["nn"], "metres north", rtol=0, atol=0.02)
    deg = src["kind"] == "4326" or src.get("code") == 4269
    t = 2e-8 if deg else 5e-3
    bx, by = pu.shift_points_by_meters(-c["e"], -c["nn"], ps, sx, sy)
    ctx.close_to(bx, x, "x after shifting back", rtol=1e-12, atol=t)
    ctx.close_to(by, y, "y after shifting back", rtol=1e-12, atol=t)
    ax, ay = pu.shift_points_by_meters(c["e2"], c["n2"], ps, sx, sy)
    dx, dy = pu.shift_points_by_meters(c["e"] + c["e2"], c["nn"] + c["n2"], ps, x, y)
    ctx.close_to(ax, dx, "x after two shifts", rtol=1e-12, atol=t)
    ctx.close_to(ay, dy, "y after two shifts", rtol=1e-12, atol=t)
    ctx.nontrivial(c["e"] != 0 and c["nn"] != 0)


bounds = fixed(x0=q(-1e6, 1e6), y0=q(-1e6, 1e6), w=logq(1e-6, 1e6), h=logq(1e-6, 1e6))


@sub(P, "bounding_polygons", bounds, quick=150, rule="a box that is not square")
def bounding_polygons(case, ctx):
    """the polygon of bounds is the box with exactly these bounds"""
    from resippy.utils import geom_utils
    x0, y0 = case["x0"], case["y0"]
    x1, y1 = x0 + case["w"], y0 + case["h"]
    p = geom_utils.bounds_2_shapely_polygon(x0, x1, y1, y0)
    ctx.equal(tuple(p.bounds), (x0, y0, x1, y1), "bounds")
    ctx.equal(p.geom_type, "Polygon", "kind")
    ctx.check(abs(p.area - (x1 - x0) * (y1 - y0)) <= 1e-9 * p.area + 1e-9 * (abs(x0) + abs(y0) + 1) * (x1 - x0 + y1 - y0), "area %r" % p.area)
    ctx.nontrivial(case["w"] != case["h"])


again(P, "local_utm", ("kind",), 60, most=8)
again(P, "reprojected_geometry", ("src", "kind", "n"), 16, most=3)
again(P, "shifted_points", ("src", "n", "form"), 24, most=3)
again(P, "descriptions", ("kind", "lon0", "lat0"), 40)
