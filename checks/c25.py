"""C25  Simulated camera images."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams, rasters
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, logq, q, rng, seeds, side, uint
from checks.c02 import ANG_UNITS, LEN_UNITS
from checks.c05 import ORDERS

P = "C25"
results_stay(P)
assume_note(P, "the camera looks down within 25 degrees of vertical; the ground is at height zero; world projections are in metres")
assume_note(P, "half-pixel conventions of base map and camera are not pinned down: simulated values may be those one base-map pixel away")
ang = q(-12, 12)
sim = fixed(gt=st.sampled_from(["utm", "utm", "4326", "zone"]), proj=st.booleans(), zone=uint(2, 59), south=st.booleans(), X=q(400000, 600000), Y=q(2e6, 7e6), H=logq(150, 8000), n=side(120, 700, 40), seed=seeds(),
            dtype=st.sampled_from(["uint16", "float32", "float64", "int32"]), nx=side(32, 200, 3), ny=side(32, 200, 3), fov=q(4, 16), px=q(2, 12), aspect=st.sampled_from([1.0, 1.0, 0.5, 2.0]),
            pu=st.sampled_from(["micrometer", "mm"]), fu=st.sampled_from(["mm", "meters", "centimeters"]), bu=st.sampled_from(["degrees", "degrees", "radians", "milliradians"]),
            ou=st.sampled_from(["degrees", "degrees", "radians"]), su=st.sampled_from(["meters", "meters", "feet", "centimeters"]), b=st.tuples(q(-6, 6), q(-6, 6), q(-180, 180)), border=st.sampled_from(ORDERS),
            poses=st.lists(st.tuples(ang, ang, q(-180, 180), q(-0.1, 0.1), q(-0.1, 0.1), q(0.7, 1.1)), min_size=1, max_size=5), bands=st.integers(1, 2), level=st.booleans(), cover=st.sampled_from([1.15, 1.15, 1.15, 0.4, 0.2]))


@sub(P, "simulated_image", sim, quick=200, rule="a tilted or turned camera that is not square")
def simulated_image(case, ctx):
    """every pixel of a simulated image shows the base map where the pixel's ray meets the ground"""
    from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator
    c = case
    utm = rasters.make_proj({"kind": "utm", "zone": c["zone"], "south": c["south"]})
    H = c["H"]
    nx, ny = c["nx"], c["ny"]
    px, py = c["px"] * 1e-6, c["px"] * 1e-6 * c["aspect"]
    f = max(nx * px, ny * py) / 2 / math.tan(math.radians(c["fov"]))
    # base map: a plane of values over the ground, in its own projection
    n = c["n"]
    half = c["cover"] * H
    crs = {"utm": {"kind": "utm", "zone": c["zone"], "south": c["south"]}, "4326": {"kind": "4326"}, "zone": {"kind": "utm", "zone": c["zone"] + 1 - 2 * (c["zone"] % 2), "south": c["south"]}}[c["gt"]]
    proj = rasters.make_proj(crs)
    cx, cy = [c["X"] - half, c["X"] + half, c["X"] + half, c["X"] - half], [c["Y"] - half, c["Y"] - half, c["Y"] + half, c["Y"] + half]
    if c["gt"] == "utm":
        gx, gy = cx, cy
    else:
        gx, gy = rasters.transformer(utm, proj).transform(cx, cy)
    x0, x1, y0, y1 = min(gx), max(gx), min(gy), max(gy)
    geot = [x0, (x1 - x0) / n, 0.0, y1, 0.0, -(y1 - y0) / n]
    jj, ii = np.meshgrid(np.arange(n) + 0.5, np.arange(n) + 0.5)
    bx, by = geot[0] + jj * geot[1], geot[3] + ii * geot[5]
    if c["gt"] != "utm":
        bx, by = rasters.transformer(proj, utm).transform(bx, by)
    g = rng(c["seed"])
    sx, sy = g.uniform(5000, 15000) * g.choice([-1, 1]), g.uniform(5000, 15000) * g.choice([-1, 1])

    def field(x, y):
        return 31000 + sx * (np.asarray(x) - c["X"]) / half / 2 + sy * (np.asarray(y) - c["Y"]) / half / 2
    base = field(bx, by).astype(c["dtype"])
    data = np.stack([base] + [np.zeros_like(base)] * (c["bands"] - 1), axis=2)
    fn = ctx.path("base map.tif")
    rasters.write_gtiff(fn, data, geot, rasters.wkt(crs))
    kw = {}
    if c["proj"] or c["gt"] != "utm":
        kw["world_projection"] = utm
    b = c["b"] if not c["level"] else (0.0, 0.0, 0.0)
    if c["border"] != "rpy":
        kw["boresight_rpy_order"] = c["border"]
    if c["ou"] != "degrees":
        kw["external_orientation_rpy_units"] = c["ou"]
    if c["su"] != "meters":
        kw["external_orientation_spatial_units"] = c["su"]
    au = ANG_UNITS[c["bu"]]
    s = PhysicalCameraSimulator(fn, f / LEN_UNITS[c["fu"]], nx, ny, *[math.radians(v) / au for v in b], pixel_pitch_x=px / LEN_UNITS[c["pu"]], pixel_pitch_y=py / LEN_UNITS[c["pu"]],
                                pixel_pitch_units=c["pu"], focal_length_units=c["fu"], boresight_units=c["bu"], **kw)
    Mb = cams.rot(c["border"], *[math.radians(v) for v in b])
    turned = False
    for r, p, y, dx, dy, dh in c["poses"]:
        X, Y, h = c["X"] + dx * H, c["Y"] + dy * H, dh * H
        ou = ANG_UNITS[c["ou"]]
        im = s.create_overhead_image_object(X, Y, h / LEN_UNITS[c["su"]], *[math.radians(v) / ou for v in (r, p, y)])
        M = Mb @ cams.rot("rpy", *[math.radians(v) for v in (r, p, y)])
        pj, pi = np.meshgrid(np.arange(nx), np.arange(ny))
        cam = np.stack([-(pj - nx / 2.0) * px / f, (pi - ny / 2.0) * py / f, np.ones((ny, nx))])
        d = np.tensordot(M.T, cam, axes=(1, 0))
        k = -h / d[2]
        wx, wy = X + k * d[0], Y + k * d[1]
        want = field(wx, wy)
        got = im.get_image_data()
        ctx.equal(got.shape, (ny, nx, 1), "shape of the simulated image")
        ctx.equal(got.dtype, np.dtype(c["dtype"]), "data type")
        # one base-map pixel in either direction, and the accuracy of ground positions (a hundredth of a camera pixel asked for)
        gsd = 2 * half / n
        cam_gsd = np.abs(k).max() * max(px, py) / f * 3
        slope = (abs(sx) + abs(sy)) / half / 2
        tol = slope * (1.05 * gsd + 0.05 * cam_gsd) + 1.5
        inside = (np.abs(wx - c["X"]) < half - 3 * gsd) & (np.abs(wy - c["Y"]) < half - 3 * gsd)
        bad = inside & ~(np.abs(got[:, :, 0].astype(float) - want) <= tol)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            ctx.fail("row %d, column %d of the simulated image: value %r, expected %r within %g (%d of %d pixels differ)" % (i, j, got[i, j, 0].item(), want[i, j], tol, bad.sum(), inside.sum()))
        if c["gt"] == "utm":
            # past the edges of the base map there is nothing to show
            outside = (np.abs(wx - c["X"]) > half + 3 * gsd + 0.05 * cam_gsd) | (np.abs(wy - c["Y"]) > half + 3 * gsd + 0.05 * cam_gsd)
            ctx.equal(np.count_nonzero(got[:, :, 0][outside]), 0, "pixels that look past the base map and aren't zero")
            if outside.any():
                ctx.label("beyond")
        ctx.keep(got, "image simulated earlier")
        md = im.get_metadata()
        ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (nx, ny, 1), "metadata")
        bx_, by_ = im.get_point_calculator().lon_lat_alt_to_pixel_x_y(wx, wy, np.zeros_like(wx), world_proj=utm)
        ctx.close_to(bx_, pj.astype(float), "pixel columns of the ground points", rtol=0, atol=1e-3)
        ctx.close_to(by_, pi.astype(float), "pixel rows of the ground points", rtol=0, atol=1e-3)
        turned = turned or (abs(r) + abs(p) > 0.1 and nx != ny)
        ctx.label("inside:%d" % (10 * inside.mean()))
    ctx.label(c["gt"], c["bu"], c["ou"], "poses:%d" % len(c["poses"]))
    ctx.nontrivial(turned)


again(P, "simulated_image", ("nx", "ny", "zone", "south", "gt", "border"), 20, most=3, same_files=False)
