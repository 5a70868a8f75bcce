"""C02  frame camera models agree with the published projection equations."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, assume_note, results_stay, sub
from harness.gens import angle_deg, fixed, logq, q, rng, seeds

P = "C02"
results_stay(P)
assume_note(P, "points lie in front of the camera")

ANG_UNITS = {"radians": 1.0, "degrees": math.pi / 180.0, "milliradians": 1e-3, "arcminute": math.pi / 10800.0}
LEN_UNITS = {"meters": 1.0, "mm": 1e-3, "micrometer": 1e-6, "centimeters": 1e-2, "feet": 0.3048, "inch": 0.0254}


def world_points(c, g, n, wide):
    X, Y, Z = cams.ground_points(c, {"n": n, "pseed": int(g.integers(0, 2 ** 24)), "alt": "spread"})
    if wide:
        X = X + g.uniform(-0.3, 0.3, n) * c["H"]
        Y = Y + g.uniform(-0.3, 0.3, n) * c["H"]
    return X, Y, Z


@sub(P, "projection_equations", fixed(cam=cams.frame_camera_case(), n=st.integers(1, 10), seed=seeds(), wide=st.booleans()),
     quick=1500, rule="points away from the principal axis of a tilted or rotated camera")
def projection_equations(case, ctx):
    c = case["cam"]
    g = rng(case["seed"])
    X, Y, Z = world_points(c, g, case["n"], case["wide"])
    pc = cams.build(c)
    x, y = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy())
    rx, ry = cams.reference(c).project(X, Y, Z)
    scale = 2e-9 / c["H"] * max(c["nx"], c["ny"]) / 2 / math.tan(math.radians(c["half_fov"])) * 200
    ctx.close_to(x, rx, c["kind"] + " pixel x", rtol=1e-8, atol=scale + 1e-7)
    ctx.close_to(y, ry, c["kind"] + " pixel y", rtol=1e-8, atol=scale + 1e-7)
    ctx.label(c["kind"])
    ctx.nontrivial(any(c[k] != 0 for k in ("om", "ph", "ka")))


@sub(P, "opencv_projectpoints", fixed(cam=cams.opencv_case(), n=st.integers(1, 10), seed=seeds()), quick=400,
     rule="a camera with at least one non-zero distortion coefficient")
def opencv_projectpoints(case, ctx):
    """differential: OpenCV's own projectPoints, camera looking along -z with the image y axis up"""
    import cv2
    c = case["cam"]
    X, Y, Z = world_points(c, rng(case["seed"]), case["n"], False)
    x, y = cams.build(c).lon_lat_alt_to_pixel_x_y(X, Y, Z)
    _, M, pos = cams.RefFrame(c)._cam(X, Y, Z)
    d = np.stack([X, Y, Z]).T - pos
    fx, fy, cx, cy = cams.opencv_intrinsics(c)
    K = np.array([[fx, 0, cx], [0, -fy, cy], [0, 0, 1.0]])
    dist = np.array([c["k1"], c["k2"], c["p1"], c["p2"], c["k3"]])
    cam = d @ M.T
    # projectPoints wants points in front (z > 0): mirror through the centre, which leaves x/z and y/z unchanged
    pts, _ = cv2.projectPoints((-cam).reshape(-1, 1, 3), np.zeros(3), np.zeros(3), K, dist)
    tol = 1e-6 + 1e-8 * fx / c["H"] * 10
    ctx.close_to(x, pts[:, 0, 0], "u against cv2.projectPoints", rtol=1e-8, atol=tol)
    ctx.close_to(y, pts[:, 0, 1], "v against cv2.projectPoints", rtol=1e-8, atol=tol)
    ctx.nontrivial(any(c[k] != 0 for k in ("k1", "k2", "k3", "p1", "p2")))


unit_case = fixed(X=q(-1e5, 1e5), Y=q(-1e5, 1e5), Z=q(10.0, 5000.0), om=q(-0.4, 0.4), ph=q(-0.4, 0.4), ka=q(-3.14, 3.14),
                  f=logq(1e-3, 0.5), ux=st.sampled_from(sorted(LEN_UNITS)), uy=st.sampled_from(sorted(LEN_UNITS)),
                  uz=st.sampled_from(sorted(LEN_UNITS)), uo=st.sampled_from(sorted(ANG_UNITS)),
                  up=st.sampled_from(sorted(ANG_UNITS)), uk=st.sampled_from(sorted(ANG_UNITS)),
                  uf=st.sampled_from(sorted(LEN_UNITS)), seed=seeds(), n=st.integers(1, 8))


@sub(P, "pinhole_units", unit_case, quick=500, rule="at least two quantities given in non-default units")
def pinhole_units(case, ctx):
    """the pinhole camera, each quantity in any unit, against the collinearity equations in metres and radians"""
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
    c = case
    cam = PinholeCamera()
    cam.init_pinhole_from_coeffs(c["X"] / LEN_UNITS[c["ux"]], c["Y"] / LEN_UNITS[c["uy"]], c["Z"] / LEN_UNITS[c["uz"]],
                                 c["om"] / ANG_UNITS[c["uo"]], c["ph"] / ANG_UNITS[c["up"]], c["ka"] / ANG_UNITS[c["uk"]],
                                 c["f"] / LEN_UNITS[c["uf"]], x_units=c["ux"], y_units=c["uy"], z_units=c["uz"],
                                 omega_units=c["uo"], phi_units=c["up"], kappa_units=c["uk"],
                                 focal_length_units=c["uf"])
    g = rng(c["seed"])
    n = c["n"]
    X, Y = c["X"] + g.uniform(-1, 1, n) * c["Z"], c["Y"] + g.uniform(-1, 1, n) * c["Z"]
    Z = g.uniform(-0.1, 0.1, n) * c["Z"]
    M = cams.rot("rpy", c["om"], c["ph"], c["ka"])
    d = M @ np.stack([X - c["X"], Y - c["Y"], Z - c["Z"]])
    x, y = cam.world_to_image_plane(X, Y, Z)
    keep = d[2] < -0.05 * c["Z"]
    ctx.close_to(np.asarray(x)[keep], (-c["f"] * d[0] / d[2])[keep], "image plane x", rtol=1e-7, atol=1e-7 * c["f"])
    ctx.close_to(np.asarray(y)[keep], (-c["f"] * d[1] / d[2])[keep], "image plane y", rtol=1e-7, atol=1e-7 * c["f"])
    odd = sum(u not in ("meters", "radians", "mm") for u in (c["ux"], c["uy"], c["uz"], c["uo"], c["up"], c["uk"], c["uf"]))
    ctx.nontrivial(odd >= 2 and keep.any())


fpa_units = fixed(cam=cams.pinhole_case(), seed=seeds(), n=st.integers(1, 6), ua=st.sampled_from(sorted(LEN_UNITS)),
                  upx=st.sampled_from(sorted(LEN_UNITS)), upy=st.sampled_from(sorted(LEN_UNITS)),
                  uf=st.sampled_from(sorted(LEN_UNITS)), uo=st.sampled_from(sorted(ANG_UNITS)),
                  up=st.sampled_from(sorted(ANG_UNITS)), uk=st.sampled_from(sorted(ANG_UNITS)))


@sub(P, "pinhole_fpa_units", fpa_units, quick=500, rule="focal plane parameters in at least two non-default units")
def pinhole_fpa_units(case, ctx):
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc \
        import IdealPinholeFpaLocalUtmPointCalc
    c = case["cam"]
    px, py, f = cams.frame_numbers(c)
    ang = {"om": case["uo"], "ph": case["up"], "ka": case["uk"]}
    a = {k: math.radians(c[k]) / ANG_UNITS[u] for k, u in ang.items()}
    pc = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(
        c["X"], c["Y"], (c["z0"] + c["H"]) / LEN_UNITS[case["ua"]], cams.proj_of(c), a["om"], a["ph"], a["ka"],
        c["nx"], c["ny"], px * 1e-6 / LEN_UNITS[case["upx"]], py * 1e-6 / LEN_UNITS[case["upy"]],
        f * 1e-3 / LEN_UNITS[case["uf"]], alt_units=case["ua"], omega_units=case["uo"], phi_units=case["up"],
        kappa_units=case["uk"], pixel_pitch_x_units=case["upx"], pixel_pitch_y_units=case["upy"],
        focal_length_units=case["uf"], flip_x=c["flip_x"], flip_y=c["flip_y"])
    X, Y, Z = world_points(c, rng(case["seed"]), case["n"], False)
    x, y = pc.lon_lat_alt_to_pixel_x_y(X, Y, Z)
    rx, ry = cams.reference(c).project(X, Y, Z)
    tol = 1e-5 + 1e-6 * f / px * 1e3 / c["H"]
    ctx.close_to(x, rx, "pixel x", rtol=1e-7, atol=tol)
    ctx.close_to(y, ry, "pixel y", rtol=1e-7, atol=tol)
    # instantaneous field of view of one detector on each axis, in any unit
    for unit, k in (("microradians", 1e6), ("degrees", 180 / math.pi), ("milliradians", 1e3)):
        ctx.close_to(pc.compute_ifov_x(unit), math.atan(px * 1e-6 / (f * 1e-3)) * k, "ifov x in " + unit, rtol=1e-9, atol=0)
        ctx.close_to(pc.compute_ifov_y(unit), math.atan(py * 1e-6 / (f * 1e-3)) * k, "ifov y in " + unit, rtol=1e-9, atol=0)
    ctx.close_to(pc.compute_ifov_x(), math.atan(px * 1e-6 / (f * 1e-3)) * 1e6, "ifov x", rtol=1e-9, atol=0)
    ctx.close_to(pc.compute_ifov_y(), math.atan(py * 1e-6 / (f * 1e-3)) * 1e6, "ifov y", rtol=1e-9, atol=0)
    ctx.nontrivial(sum(case[k] not in ("meters", "mm", "micrometer") for k in ("ua", "upx", "upy", "uf")) >= 2)


wgs = fixed(lon=q(-179.5, 179.5), lat=q(-79.0, 83.0), cam=cams.pinhole_case(), seed=seeds(), n=st.integers(1, 6), units=st.one_of(st.none(), st.tuples(
    *[st.sampled_from(sorted(LEN_UNITS))] * 4, *[st.sampled_from(sorted(ANG_UNITS))] * 3).map(list)))


@sub(P, "pinhole_from_wgs84", wgs, quick=400, rule="sensor away from the central meridian of its zone")
def pinhole_from_wgs84(case, ctx):
    """a camera placed by longitude / latitude is the same camera placed at that spot of its own UTM zone"""
    from pyproj import Transformer, Proj
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc \
        import IdealPinholeFpaLocalUtmPointCalc
    c = dict(case["cam"])
    px, py, f = cams.frame_numbers(c)
    given = [c["z0"] + c["H"], math.radians(c["om"]), math.radians(c["ph"]), math.radians(c["ka"]), px, py, f]
    kw = {}
    if case["units"] is not None:
        ua, ux, uy, uf, uo, up, uk = case["units"]
        given = [given[0] / LEN_UNITS[ua], given[1] / ANG_UNITS[uo], given[2] / ANG_UNITS[up], given[3] / ANG_UNITS[uk],
                 px * 1e-6 / LEN_UNITS[ux], py * 1e-6 / LEN_UNITS[uy], f * 1e-3 / LEN_UNITS[uf]]
        kw = dict(alt_units=ua, omega_units=uo, phi_units=up, kappa_units=uk, pixel_pitch_x_units=ux, pixel_pitch_y_units=uy, focal_length_units=uf)
    pc = IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(
        case["lon"], case["lat"], *given[:4], c["nx"], c["ny"], *given[4:], flip_x=c["flip_x"], flip_y=c["flip_y"], **kw)
    local = pc.get_projection()
    # the point calculator's own CRS must be a UTM zone that contains the sensor
    back = Transformer.from_crs(local.crs, "EPSG:4326", always_xy=True)
    to = Transformer.from_crs("EPSG:4326", local.crs, always_xy=True)
    c["X"], c["Y"] = to.transform(case["lon"], case["lat"])
    ctx.check(100000 < c["X"] < 900000, "sensor easting %r is not within its UTM zone" % c["X"])
    ctx.check(0 <= c["Y"] <= 10000000, "sensor northing %r is not within its UTM zone" % c["Y"])
    cx, cy = pc.get_approximate_lon_lat_center()
    ctx.close_to([cx, cy], [c["X"], c["Y"]], "sensor position in the local CRS", rtol=0, atol=1e-3)
    X, Y, Z = world_points(c, rng(case["seed"]), case["n"], False)
    x, y = pc.lon_lat_alt_to_pixel_x_y(X, Y, Z)
    rx, ry = cams.reference(c).project(X, Y, Z)
    tol = 1e-5 + 1e-5 * f / px * 1e3 / c["H"]
    ctx.close_to(x, rx, "pixel x", rtol=1e-7, atol=tol)
    ctx.close_to(y, ry, "pixel y", rtol=1e-7, atol=tol)
    # and the same ground points given in longitude / latitude
    lon, lat = back.transform(X, Y)
    from resippy.photogrammetry import crs_defs
    x2, y2 = pc.lon_lat_alt_to_pixel_x_y(np.asarray(lon), np.asarray(lat), Z, world_proj=crs_defs.PROJ_4326)
    tol = 1e-3 + 1e-4 * f / px * 1e3 / c["H"]
    ctx.close_to(x2, rx, "pixel x from lon/lat", rtol=1e-6, atol=tol)
    ctx.close_to(y2, ry, "pixel y from lon/lat", rtol=1e-6, atol=tol)
    ctx.label("south" if case["lat"] < 0 else "north")
    ctx.nontrivial(abs(c["X"] - 500000) > 1000)


# thousands of points in one call
sub(P, "many_points", fixed(cam=cams.frame_camera_case(), n=logq(300, 60000).map(int), seed=seeds(), wide=st.booleans()),
    quick=30, rule="a tilted or rotated camera")(projection_equations)


redo = fixed(cams=st.lists(cams.opencv_case(), min_size=2, max_size=5), what=st.lists(st.sampled_from(["int", "ext", "off"]), min_size=5, max_size=5),
             seed=seeds(), n=st.integers(1, 5))


@sub(P, "camera_described_again", redo, quick=150, rule="at least one description replaced after points were projected")
def camera_described_again(case, ctx):
    """intrinsics, pose or mounting given anew, in any order: the latest of each counts"""
    cur = dict(case["cams"][0])
    pc = cams.build(cur)
    for k, c in enumerate(case["cams"]):
        if k:
            what = case["what"][k]
            if what == "int":
                cur.update({n: c[n] for n in ("nx", "ny", "pitch", "aspect", "half_fov", "cx", "cy", "k1", "k2", "k3", "p1", "p2")})
                fx, fy, cx, cy = cams.opencv_intrinsics(cur)
                pc.init_intrinsic(fx, fy, cx, cy, c["k1"], c["k2"], c["k3"], c["p1"], c["p2"], c["pitch"])
            elif what == "ext":
                cur.update({n: c[n] for n in ("X", "Y", "z0", "H", "om", "ph", "ka")})
                pc.init_extrinsic(c["X"], c["Y"], c["z0"] + c["H"], *(math.radians(c[n]) for n in ("om", "ph", "ka")))
            else:
                cur.update({n: c[n] for n in ("ox", "oy", "oz", "dom", "dph", "dka")})
                pc.init_offsets(c["ox"], c["oy"], c["oz"], *(math.radians(c[n]) for n in ("dom", "dph", "dka")))
        X, Y, Z = world_points(cur, rng(case["seed"]), case["n"], False)
        x, y = pc.lon_lat_alt_to_pixel_x_y(X.copy(), Y.copy(), Z.copy())
        rx, ry = cams.reference(cur).project(X, Y, Z)
        scale = 2e-9 / cur["H"] * max(cur["nx"], cur["ny"]) / 2 / math.tan(math.radians(cur["half_fov"])) * 200
        ctx.close_to(x, rx, "after change %d, pixel x" % k, rtol=1e-8, atol=scale + 1e-7)
        ctx.close_to(y, ry, "after change %d, pixel y" % k, rtol=1e-8, atol=scale + 1e-7)
    ctx.nontrivial()


# one use after another
again(P, "projection_equations", ("n", "seed"), 60)
again(P, "opencv_projectpoints", ("n", "seed"), 40)
again(P, "pinhole_units", ("X", "Y", "Z"), 60)
again(P, "pinhole_fpa_units", ("cam",), 60)
again(P, "pinhole_from_wgs84", ("cam", "seed"), 60)
