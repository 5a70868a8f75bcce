"""Cameras as JSON cases: strategies, builders of the real point calculators, and independent reference models."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.gens import angle_deg, fixed, logq, q, rng, seeds, uint


# ---------------------------------------------------------------------------------------------------------------------
# rotation matrices written out from their definition (elementary rotations, first-applied angle first in the name)
def elem(axis, a):
    c, s = math.cos(a), math.sin(a)
    if axis == "r":
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]], dtype=float)
    if axis == "p":
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]], dtype=float)
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]], dtype=float)


def rot(order, omega, phi, kappa):
    ang = {"r": omega, "p": phi, "y": kappa}
    m = np.eye(3)
    for ax in order:
        m = elem(ax, ang[ax]) @ m
    return m


# ---------------------------------------------------------------------------------------------------------------------
# strategies
def _frame():
    return dict(
        nx=uint(8, 4000), ny=uint(8, 4000), pitch=logq(1.0, 20.0),
        aspect=st.sampled_from([1.0, 1.0, 0.5, 2.0, 1.3]),
        half_fov=q(1.0, 25.0), om=angle_deg(20.0), ph=angle_deg(20.0), ka=angle_deg(180.0),
        X=q(200000.0, 800000.0), Y=q(1000000.0, 8000000.0), z0=q(-100.0, 3000.0), H=logq(20.0, 8000.0))


def pinhole_case():
    d = _frame()
    d.update(kind=st.just("pinhole"), flip_x=st.booleans(), flip_y=st.booleans(),
             zone=st.integers(1, 60), south=st.booleans())
    return fixed(**d)


def pix4d_case():
    d = _frame()
    d.update(kind=st.just("pix4d"), px=q(-0.1, 0.1), py=q(-0.1, 0.1), fpa_w=q(3.0, 40.0),
             k1=q(-0.1, 0.1), k2=q(-0.1, 0.1), k3=q(-0.1, 0.1), p1=q(-0.01, 0.01), p2=q(-0.01, 0.01),
             distort=st.booleans(), zone=st.integers(1, 60), south=st.booleans())
    return fixed(**d)


def opencv_case():
    d = _frame()
    d.update(kind=st.just("opencv"), cx=q(-0.1, 0.1), cy=q(-0.1, 0.1),
             k1=q(-0.1, 0.1), k2=q(-0.1, 0.1), k3=q(-0.1, 0.1), p1=q(-0.01, 0.01), p2=q(-0.01, 0.01),
             ox=q(-3, 3), oy=q(-3, 3), oz=q(-3, 3), dom=angle_deg(8.0), dph=angle_deg(8.0), dka=angle_deg(30.0),
             zone=st.just(18), south=st.just(False))
    return fixed(**d)


def rpc_case():
    return fixed(kind=st.just("rpc"), seed=seeds(), quad=logq(1e-6, 3e-3), cub=logq(1e-8, 1e-4),
                 lat_off=q(-70.0, 70.0), lon_off=q(-170.0, 170.0), lat_scale=q(0.02, 0.3), lon_scale=q(0.02, 0.3),
                 h_off=q(-50.0, 3000.0), h_scale=q(100.0, 1000.0),
                 samp_off=q(100.0, 20000.0), line_off=q(100.0, 20000.0),
                 samp_scale=q(100.0, 20000.0), line_scale=q(100.0, 20000.0),
                 swap=st.booleans(), neg=st.booleans())


def geotiff_case():
    return fixed(kind=st.just("geotiff"), zone=st.integers(1, 60), south=st.booleans(), crs=st.sampled_from(["utm", "4326"]),
                 X=q(200000.0, 800000.0), Y=q(1000000.0, 8000000.0), lon=q(-170.0, 170.0), lat=q(-75.0, 75.0),
                 gx=logq(0.01, 50.0), gy=logq(0.01, 50.0), rx=q(-0.4, 0.4), ry=q(-0.4, 0.4), north_up=st.booleans(),
                 nx=uint(2, 4000), ny=uint(2, 4000))


def frame_camera_case():
    return st.one_of(pinhole_case(), pix4d_case(), opencv_case())


def any_camera_case():
    return st.one_of(pinhole_case(), pix4d_case(), opencv_case(), rpc_case(), geotiff_case())


# ---------------------------------------------------------------------------------------------------------------------
def utm_proj(zone, south):
    from pyproj import Proj
    return Proj(proj="utm", ellps="WGS84", zone=int(zone), south=bool(south), preserve_units=True)


def frame_numbers(c):
    """pixel pitch in micrometres, focal length in mm giving the drawn half field of view on the wider side"""
    px = c["pitch"]
    py = c["pitch"] * c["aspect"]
    half = max(c["nx"] * px, c["ny"] * py) / 2.0 * 1e-3
    f_mm = half / math.tan(math.radians(c["half_fov"]))
    return px, py, f_mm


class RefFrame:
    """Reference frame camera: projects straight from the definition."""

    def __init__(self, c):
        self.c = c
        self.zc = c["z0"] + c["H"]

    def _cam(self, X, Y, Z):
        c = self.c
        om, ph, ka = (math.radians(c[k]) for k in ("om", "ph", "ka"))
        M = rot("rpy", om, ph, ka)
        pos = np.array([c["X"], c["Y"], self.zc])
        if c["kind"] == "opencv":
            pos = pos + np.array([c["ox"], c["oy"], c["oz"]]) @ M
            M = rot("rpy", *(math.radians(c[k]) for k in ("dom", "dph", "dka"))) @ M
        d = np.stack([np.asarray(X, float) - pos[0], np.asarray(Y, float) - pos[1], np.asarray(Z, float) - pos[2]])
        return np.tensordot(M, d, axes=(1, 0)), M, pos

    def project(self, X, Y, Z):
        c = self.c
        cam, M, pos = self._cam(X, Y, Z)
        u, v = cam[0] / cam[2], cam[1] / cam[2]
        if c["kind"] == "pinhole":
            px, py, f = frame_numbers(c)
            x = -f * u * 1e3
            y = -f * v * 1e3
            if c["flip_x"]:
                x = -x
            if c["flip_y"]:
                y = -y
            return x / px + c["nx"] / 2.0, y / py + c["ny"] / 2.0
        k = [c["k1"], c["k2"], c["k3"], c["p1"], c["p2"]]
        if c["kind"] == "pix4d":
            # Pix4D's camera frame is x right, y down, z forward: pixel = F * X/Z + c
            par = pix4d_params(c)
            fpx = par["f_mm"] * c["nx"] / c["fpa_w"]
            ppx = par["px_mm"] * c["nx"] / c["fpa_w"]
            ppy = par["py_mm"] * c["nx"] / c["fpa_w"]
            if not c["distort"]:
                k = [0, 0, 0, 0, 0]
            R = rot("rpy", *(math.radians(c[n]) for n in ("om", "ph", "ka")))
            flipped = np.diag([1.0, -1.0, -1.0]) @ np.tensordot(R, np.stack(
                [np.asarray(X, float) - pos[0], np.asarray(Y, float) - pos[1], np.asarray(Z, float) - pos[2]]),
                axes=(1, 0)).reshape(3, -1)
            shp = np.shape(X)
            xh, yh = flipped[0] / flipped[2], flipped[1] / flipped[2]
            xh, yh = xh.reshape(shp), yh.reshape(shp)
            r2 = xh * xh + yh * yh
            rad = 1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3
            xd = rad * xh + 2 * k[3] * xh * yh + k[4] * (r2 + 2 * xh * xh)
            yd = rad * yh + 2 * k[4] * xh * yh + k[3] * (r2 + 2 * yh * yh)
            return fpx * xd + ppx, fpx * yd + ppy
        fx, fy, cx, cy = opencv_intrinsics(c)
        r2 = u * u + v * v
        rad = 1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3
        xd = rad * u + 2 * k[3] * u * v + k[4] * (r2 + 2 * u * u)
        yd = rad * v + k[3] * (r2 + 2 * v * v) + 2 * k[4] * u * v
        return fx * xd + cx, -fy * yd + cy


def pix4d_params(c):
    px, py, f_mm = frame_numbers(c)
    # choose the focal length for the drawn field of view on the drawn sensor width; square pixels as Pix4D has
    wide = max(1.0, c["ny"] / c["nx"])
    f = c["fpa_w"] / 2.0 * wide / math.tan(math.radians(c["half_fov"]))
    fpa_h = c["fpa_w"] * c["ny"] / c["nx"]
    return {"f_mm": f, "px_mm": c["fpa_w"] * (0.5 + c["px"]), "py_mm": fpa_h * (0.5 + c["py"]), "fpa_h": fpa_h}


def opencv_intrinsics(c):
    px, py, f_mm = frame_numbers(c)
    return f_mm * 1e3 / px, f_mm * 1e3 / py, c["nx"] * (0.5 + c["cx"]), c["ny"] * (0.5 + c["cy"])


def ref_p(coef, P, L, H):
    """RPC00B polynomial (P latitude, L longitude, H height, all normalised)."""
    t = [1.0, L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L ** 3, L * P * P, L * H * H,
         L * L * P, P ** 3, P * H * H, L * L * H, P * P * H, H ** 3]
    return sum(c * x for c, x in zip(coef, t))


def rpc_coeffs(c):
    g = rng(c["seed"])
    out = []
    for k in range(2):
        num = np.zeros(20)
        den = np.zeros(20)
        num[0] = g.uniform(-0.02, 0.02)
        main, other, hh = g.uniform(0.7, 1.2), g.uniform(-0.25, 0.25), g.uniform(-0.05, 0.05)
        lon_first = (k == 0) != c["swap"]
        num[1], num[2] = (main, other) if lon_first else (other, main)
        if c["neg"]:
            num[1], num[2] = (num[1], -num[2])
        num[3] = hh
        num[4:10] = g.uniform(-1, 1, 6) * c["quad"]
        num[10:20] = g.uniform(-1, 1, 10) * c["cub"]
        den[0] = 1.0
        den[1:4] = g.uniform(-1, 1, 3) * c["quad"]
        den[4:10] = g.uniform(-1, 1, 6) * c["quad"]
        den[10:20] = g.uniform(-1, 1, 10) * c["cub"]
        out.append((num, den))
    return out


class RefRPC:
    def __init__(self, c):
        self.c = c
        (self.sn, self.sd), (self.ln, self.ld) = rpc_coeffs(c)

    def project(self, lon, lat, h):
        c = self.c
        P = (np.asarray(lat, float) - c["lat_off"]) / c["lat_scale"]
        L = (np.asarray(lon, float) - c["lon_off"]) / c["lon_scale"]
        H = (np.asarray(h, float) - c["h_off"]) / c["h_scale"]
        x = ref_p(self.sn, P, L, H) / ref_p(self.sd, P, L, H) * c["samp_scale"] + c["samp_off"] + 0.5
        y = ref_p(self.ln, P, L, H) / ref_p(self.ld, P, L, H) * c["line_scale"] + c["line_off"] + 0.5
        return x, y


def geotiff_geot(c):
    if c["crs"] == "4326":
        s = 1e-5
        x0, y0 = c["lon"], c["lat"]
        # keep the raster within the valid range of degrees
        s = min(s, 5.0 / (c["nx"] * c["gx"]), 5.0 / (c["ny"] * c["gy"]))
    else:
        s = 1.0
        x0, y0 = c["X"], c["Y"]
    gx, gy = c["gx"] * s, -c["gy"] * s
    if c["north_up"]:
        return [x0, gx, 0.0, y0, 0.0, gy]
    return [x0, gx, c["rx"] * gx, y0, c["ry"] * gy, gy]


class RefAffine:
    def __init__(self, c):
        self.g = geotiff_geot(c)

    def project(self, X, Y, Z):
        g = self.g
        det = g[1] * g[5] - g[2] * g[4]
        dx, dy = np.asarray(X, float) - g[0], np.asarray(Y, float) - g[3]
        return (g[5] * dx - g[2] * dy) / det, (g[1] * dy - g[4] * dx) / det

    def ground(self, x, y):
        g = self.g
        return g[0] + np.asarray(x) * g[1] + np.asarray(y) * g[2], g[3] + np.asarray(x) * g[4] + np.asarray(y) * g[5]


def reference(c):
    if c["kind"] == "rpc":
        return RefRPC(c)
    if c["kind"] == "geotiff":
        return RefAffine(c)
    return RefFrame(c)


def proj_of(c):
    from resippy.photogrammetry import crs_defs
    if c["kind"] == "rpc" or (c["kind"] == "geotiff" and c["crs"] == "4326"):
        return crs_defs.PROJ_4326
    return utm_proj(c["zone"], c["south"])


PT = "resippy.image_objects.earth_overhead.earth_overhead_point_calculators."


def build(c):
    """The real point calculator for a camera case."""
    import importlib
    if c["kind"] == "pinhole":
        cls = importlib.import_module(PT + "ideal_pinhole_fpa_local_utm_point_calc").IdealPinholeFpaLocalUtmPointCalc
        px, py, f = frame_numbers(c)
        return cls.init_from_local_params(c["X"], c["Y"], c["z0"] + c["H"], proj_of(c), c["om"], c["ph"], c["ka"],
                                          c["nx"], c["ny"], px, py, f, omega_units="degrees", phi_units="degrees",
                                          kappa_units="degrees", flip_x=c["flip_x"], flip_y=c["flip_y"])
    if c["kind"] == "pix4d":
        cls = importlib.import_module(PT + "pix4d_point_calc").Pix4dPointCalc
        par = pix4d_params(c)
        # Pix4D camera frame: x right, y down, z forward
        R = np.diag([1.0, -1.0, -1.0]) @ rot("rpy", *(math.radians(c[n]) for n in ("om", "ph", "ka")))
        name = "IMG_0001_1.tif"
        params = {name: {"camera_rotation_r": R,
                         "external_params": [c["X"], c["Y"], c["z0"] + c["H"], c["om"], c["ph"], c["ka"]],
                         "n_x_pixels": c["nx"], "n_y_pixels": c["ny"],
                         "internal_params": {"F": par["f_mm"], "Px": par["px_mm"], "Py": par["py_mm"],
                                             "fpa_width_mm": c["fpa_w"], "fpa_height_mm": par["fpa_h"]},
                         "radial_distortion": [c["k1"], c["k2"], c["k3"]],
                         "tangential_distortion": [c["p1"], c["p2"]]},
                  "projection": proj_of(c)}
        return cls.init_from_params("/some/where/" + name, params, distortion_model="regular" if c["distort"] else None)
    if c["kind"] == "opencv":
        cls = importlib.import_module(PT + "opencv_point_calc").OpenCVPointCalc
        fx, fy, cx, cy = opencv_intrinsics(c)
        params = {"fx_pixels": fx, "fy_pixels": fy, "cx_pixels": cx, "cy_pixels": cy, "k1": c["k1"], "k2": c["k2"], "k3": c["k3"],
                  "p1": c["p1"], "p2": c["p2"], "pixel_pitch_microns": c["pitch"], "x_offset_meters": c["ox"],
                  "y_offset_meters": c["oy"], "z_offset_meters": c["oz"], "omega_offset_radians": math.radians(c["dom"]),
                  "phi_offset_radians": math.radians(c["dph"]), "kappa_offset_radians": math.radians(c["dka"])}
        pose = (c["X"], c["Y"], c["z0"] + c["H"], math.radians(c["om"]), math.radians(c["ph"]), math.radians(c["ka"]))
        inner = [params[k] for k in ("fx_pixels", "fy_pixels", "cx_pixels", "cy_pixels", "k1", "k2", "k3", "p1", "p2", "pixel_pitch_microns")]
        mount = [params[k] for k in ("x_offset_meters", "y_offset_meters", "z_offset_meters", "omega_offset_radians",
                                     "phi_offset_radians", "kappa_offset_radians")]
        # described in one of several orders; what is described twice counts as described last
        turn = (c["nx"] + 3 * c["ny"]) % 5
        if turn < 3:
            pc = cls.init_from_params(params)
            if turn == 1:
                pc.init_extrinsic(*(v + 1.5 for v in pose))
            pc.init_extrinsic(*pose)
            if turn == 2:
                pc.init_offsets(*mount)
        else:
            pc = cls.init_from_params({k: v * 1.25 + 0.01 for k, v in params.items()})
            pc.init_extrinsic(*pose)
            for step in ((pc.init_offsets, mount), (pc.init_intrinsic, inner))[::1 if turn == 3 else -1]:
                step[0](*step[1])
        pc.set_approximate_lon_lat_center(c["X"], c["Y"])
        return pc
    if c["kind"] == "rpc":
        cls = importlib.import_module(PT + "rpc_point_calc").RPCPointCalc
        (sn, sd), (ln, ld) = rpc_coeffs(c)
        return cls.init_from_coeffs(sn, sd, c["samp_scale"], c["samp_off"], ln, ld, c["line_scale"], c["line_off"],
                                    c["lat_scale"], c["lat_off"], c["lon_scale"], c["lon_off"], c["h_scale"], c["h_off"])
    cls = importlib.import_module(PT + "geotiff_point_calc").GeotiffPointCalc
    pc = cls()
    pc.set_geot(geotiff_geot(c))
    pc.set_npix_x(c["nx"])
    pc.set_npix_y(c["ny"])
    pc.set_projection(proj_of(c))
    return pc


# ---------------------------------------------------------------------------------------------------------------------
# points in the field of view
def points_case(n_max=12):
    return fixed(n=st.integers(1, n_max), pseed=seeds(), alt=st.sampled_from(["zero", "spread", "const"]))


def ground_points(c, p):
    """World points (native CRS) seen by the camera, as (X, Y, Z), by inverting the reference model exactly enough."""
    g = rng(p["pseed"])
    n = p["n"]
    fx, fy = g.uniform(0.0, 1.0, n), g.uniform(0.0, 1.0, n)
    if c["kind"] == "geotiff":
        X, Y = RefAffine(c).ground(fx * c["nx"], fy * c["ny"])
        return X, Y, g.uniform(-100, 100, n)
    if c["kind"] == "rpc":
        X = c["lon_off"] + (2 * fx - 1) * c["lon_scale"] * 0.9
        Y = c["lat_off"] + (2 * fy - 1) * c["lat_scale"] * 0.9
        Z = c["h_off"] + g.uniform(-1, 1, n) * c["h_scale"] * (0.9 if p["alt"] != "const" else 0)
        return X, Y, Z
    Z = np.zeros(n) + c["z0"]
    if p["alt"] == "spread":
        Z = Z + g.uniform(-0.1, 0.1, n) * c["H"]
    ref = RefFrame(c)
    _, M, pos = ref._cam(np.zeros(1), np.zeros(1), np.zeros(1))
    t = math.tan(math.radians(c["half_fov"]))
    px, py, f = frame_numbers(c)
    wx, wy = c["nx"] * px, c["ny"] * py
    if c["kind"] == "pix4d":
        wx, wy = c["nx"], c["ny"]
    s = max(wx, wy)
    rays = np.stack([(2 * fx - 1) * t * wx / s, (2 * fy - 1) * t * wy / s, -np.ones(n)])
    w = M.T @ rays
    k = (Z - pos[2]) / w[2]
    return pos[0] + w[0] * k, pos[1] + w[1] * k, Z


def jacobian(ref, X, Y, Z, hx, hy):
    """Central-difference d(pixel)/d(ground) of the reference model, shape (2, 2, n)."""
    xa, ya = ref.project(X + hx, Y, Z)
    xb, yb = ref.project(X - hx, Y, Z)
    xc, yc = ref.project(X, Y + hy, Z)
    xd, yd = ref.project(X, Y - hy, Z)
    return np.array([[(xa - xb) / (2 * hx), (xc - xd) / (2 * hy)], [(ya - yb) / (2 * hx), (yc - yd) / (2 * hy)]])
