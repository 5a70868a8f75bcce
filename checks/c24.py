"""C24  Pix4D camera files and Micasense images."""
import calendar
import math
import os

import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, assume_note, results_stay, sub
from harness.gens import array_of, fixed, q, rng, seeds, side, uint

P = "C24"
results_stay(P)
assume_note(P, "files laid out as Pix4D writes them (8 and 1 header lines, 10 lines per image, single blanks between the values of a line, image names ending in _<band>.<extension> with bands 1 to 9)")
assume_note(P, "EXIF sub-second text without leading zeros (the convention of the Micasense library the code follows)")


def camera(g, nx, ny):
    return dict(kind="pix4d", nx=nx, ny=ny, fpa_w=float(g.uniform(3, 40)), px=float(g.uniform(-.1, .1)), py=float(g.uniform(-.1, .1)), k1=float(g.uniform(-.1, .1)), k2=float(g.uniform(-.1, .1)),
                k3=float(g.uniform(-.1, .1)), p1=float(g.uniform(-.01, .01)), p2=float(g.uniform(-.01, .01)), half_fov=float(g.uniform(5, 25)), pitch=3.0, aspect=1.0, distort=True,
                om=float(g.uniform(-20, 20)), ph=float(g.uniform(-20, 20)), ka=float(g.uniform(-180, 180)), X=float(g.uniform(2e5, 8e5)), Y=float(g.uniform(1e6, 8e6)), z0=0.0, H=float(g.uniform(30, 3000)))


def num(v, style):
    return {"r": "%r", "e": "%.17e", "f": "%.20f"}[style] % float(v)


def collect(case, ctx):
    """writes the files of a collect; returns the cameras by image name"""
    g = rng(case["seed"])
    nx, ny = case["nx"], case["ny"]
    eol = case["eol"]
    inner = [camera(g, nx, ny) for _ in range(case["bands"])]
    if case["near"]:
        # cameras of one make, which differ by parts of a million and less
        inner = [{k: v * (1 + 10.0 ** -case["near"] * i) if isinstance(v, float) else v for k, v in inner[0].items()} for i in range(case["bands"])]
    names, out = [], {}
    for i in range(case["captures"]):
        last = pose if i else None
        pose = camera(g, nx, ny)
        if case["near"] and last:
            pose = {k: v + 10.0 ** -case["near"] * (pose[k] - v) if isinstance(v, float) else v for k, v in last.items()}
        for b in range(case["bands"]):
            c = dict(inner[b])
            c.update({k: pose[k] for k in ("X", "Y", "H", "om", "ph", "ka")})
            c["X"] += 0.01 * b
            c["ka"] += 0.1 * b * (10.0 ** -case["near"] if case["near"] else 1)
            n = "%s%04d_%d.%s" % (case["stem"], (i * 37 + 5) % 10000, b + 1, case["ext"])
            names.append(n)
            out[n] = c
    order = list(g.permutation(len(names)))
    F = lambda v: num(v, case["style"])
    L = ["fileName imageWidth imageHeight ", "camera matrix K [3x3]", "radial distortion [3x1]", "tangential distortion [2x1]", "camera position t [3x1]", "camera rotation R [3x3]", "camera model m = K [R|-Rt] X", ""]
    for i in order:
        n = names[i]
        c = out[n]
        p = cams.pix4d_params(c)
        s = c["nx"] / c["fpa_w"]
        c["R"] = np.diag([1.0, -1.0, -1.0]) @ cams.rot("rpy", *(math.radians(c[k]) for k in ("om", "ph", "ka")))
        c["K"] = np.array([[p["f_mm"] * s, 0, p["px_mm"] * s], [0, p["f_mm"] * s, p["py_mm"] * s], [0, 0, 1]])
        c["rad"], c["tan"] = np.array([c["k1"], c["k2"], c["k3"]]), np.array([c["p1"], c["p2"]])
        c["t"] = np.array([c["X"], c["Y"], c["H"]])
        L.append("%s %d %d" % (n, nx, ny))
        L += [" ".join(F(v) for v in r) for r in c["K"]]
        L += [" ".join(F(v) for v in c[k]) for k in ("rad", "tan", "t")]
        L += [" ".join(F(v) for v in r) for r in c["R"]]
    d = os.path.dirname(ctx.path("params dir", "x"))
    pre = case["prefix"]

    def put(name, lines, last):
        with open(os.path.join(d, pre + name), "w", newline="") as o:
            o.write(eol.join(lines) + (eol if last else ""))
        return pre + name
    files = {}
    files["calibrated_params_fname"] = put("calibrated_camera_parameters.txt", L, case["last"])
    L = ["imageName X Y Z Omega Phi Kappa"]
    for i in g.permutation(len(names)):
        c = out[names[i]]
        L.append(" ".join([names[i]] + [F(v) for v in (c["X"], c["Y"], c["H"], c["om"], c["ph"], c["ka"])]))
    files["external_params_fname"] = put("calibrated_external_camera_parameters.txt", L, case["last"])
    L = []
    internal = []
    for b, c in enumerate(inner):
        p = cams.pix4d_params(c)
        v = [("F", p["f_mm"]), ("Px", p["px_mm"]), ("Py", p["py_mm"]), ("K1", c["k1"]), ("K2", c["k2"]), ("K3", c["k3"]), ("T1", c["p1"]), ("T2", c["p2"])]
        internal.append(dict(v, fpa_width_mm=c["fpa_w"], fpa_height_mm=p["fpa_h"]))
        T = ["%s %s" % (k, F(x)) for k, x in v]
        L += ["Pix4D camera calibration file %d" % b, "", "#Focal Length mm assuming a sensor width of %sx%smm" % (F(c["fpa_w"]), F(p["fpa_h"])), T[0], "", "#Principal Point mm", T[1], T[2], "",
              "#Symmetrical Lens Distortion Coeffs"] + T[3:6] + ["", "#Tangential Lens Distortion Coeffs"] + T[6:]
        if b < case["bands"] - 1 or case["tail"]:
            L.append("")
    files["internal_params_fname"] = put("pix4d_calibrated_internal_camera_parameters.cam", L, case["last"])
    import osgeo.osr as osr
    sr = osr.SpatialReference()
    sr.ImportFromEPSG((32700 if case["south"] else 32600) + case["zone"])
    files["wkt_fname"] = put("wkt.prj", [sr.ExportToWkt()], case["last"])
    return d, files, names, out, internal


files = dict(seed=seeds(), nx=uint(8, 2000), ny=uint(8, 2000), captures=side(4, 40), eol=st.sampled_from(["\n", "\r\n"]), stem=st.sampled_from(["IMG_", "L0_IMG_", "a-b.c_"]),
             ext=st.sampled_from(["tif", "jpg"]), style=st.sampled_from(["r", "e", "f"]), last=st.booleans(), tail=st.booleans(), prefix=st.sampled_from(["", "x_", "pix4d_1703_"]),
             zone=uint(1, 60), south=st.booleans(), near=st.sampled_from([0, 0, 4, 6, 8]), named=st.booleans())


def equal_to(ctx, got, want, what):
    # twenty decimals of a small coefficient are 1e-20, everything else is exact to the last digit of a double
    ctx.close_to(got, want, what, rtol=1e-15, atol=1e-19)


@sub(P, "files", fixed(bands=st.integers(1, 6), **files), quick=300, rule="several captures and bands")
def read_files(case, ctx):
    """every value of a collect's files is read, under its image, band and name"""
    from resippy.utils import pix4d_utils as pu
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
    d, fn, names, want, internal = collect(case, ctx)
    path = {k: os.path.join(d, v) for k, v in fn.items()}
    cal = pu.read_calibrated_camera_parameters(path["calibrated_params_fname"])
    ctx.equal(sorted(cal), sorted(names), "images in the calibrated parameters")

    def calibrated(e, c, n):
        ctx.equal((e["n_x_pixels"], e["n_y_pixels"]), (c["nx"], c["ny"]), n + ": size")
        for k, w in (("camera_matrix_k", c["K"]), ("radial_distortion", c["rad"]), ("tangential_distortion", c["tan"]), ("camera_rotation_r", c["R"])):
            equal_to(ctx, e[k], w, n + ": " + k)
        equal_to(ctx, np.ravel(e["camera_position_t"]), c["t"], n + ": camera_position_t")
    ext6 = lambda c: [c["X"], c["Y"], c["H"], c["om"], c["ph"], c["ka"]]
    for n in names:
        calibrated(cal[n], want[n], n)
    pc = Pix4dPointCalc()
    for src, who in ((pu, "pix4d_utils"), (pc, "Pix4dPointCalc")):
        e = src.read_calibrated_external_camera_parameters(path["external_params_fname"])
        ctx.equal(sorted(e), sorted(names), who + ": images in the external parameters")
        for n in names:
            equal_to(ctx, e[n], ext6(want[n]), "%s: external parameters of %s" % (who, n))
        i = src.read_pix4d_calibrated_internal_camera_parameters(path["internal_params_fname"])
        ctx.equal(len(i), len(internal), who + ": cameras in the internal parameters")
        for b, (p, w) in enumerate(zip(i, internal)):
            ctx.equal(sorted(p), sorted(w), "%s: internal parameters of camera %d" % (who, b))
            for k in w:
                equal_to(ctx, p[k], w[k], "%s: %s of camera %d" % (who, k, b))
    for n in names[:3]:
        c = want[n]
        # Pix4D's angles turn image axes into map axes
        ctx.close_to(pu.create_r_matrix(ext6(c)), cams.rot("rpy", *(math.radians(c[k]) for k in ("om", "ph", "ka"))).T, "rotation matrix of %s" % n, rtol=0, atol=1e-12)
    m = pu.make_master_dict(d, **(fn if case["named"] else {}))
    for n in names:
        calibrated(m[n], want[n], "master: " + n)
        equal_to(ctx, m[n]["external_params"], ext6(want[n]), "master: external parameters of " + n)
        b = int(n.rsplit(".", 1)[0][-1]) - 1
        for k in internal[b]:
            equal_to(ctx, m[n]["internal_params"][k], internal[b][k], "master: internal %s of %s" % (k, n))
    ref = cams.utm_proj(case["zone"], case["south"])
    lon, lat = -183 + 6 * case["zone"] + 1.1, -33.3 if case["south"] else 33.3
    ctx.close_to(m["projection"](lon, lat), ref(lon, lat), "projection", rtol=0, atol=1e-6)
    ctx.label("style:" + case["style"], "named" if case["named"] else "found")
    ctx.nontrivial(case["captures"] > 1 and case["bands"] > 1)


@sub(P, "image", fixed(bands=st.just(5), dtype=st.sampled_from(["uint8", "uint16", "float32"]), pick=uint(0, 100), full=st.booleans(), m=side(12, 2000), swap=st.booleans(), sy=side(12, 700, 2), sx=side(14, 900, 2), **files), quick=250, rule="more than one capture")
def image(case, ctx):
    """a Micasense image: its five files are the bands in order, each with the camera of its own file"""
    from PIL import Image
    from resippy.utils import pix4d_utils as pu
    from resippy.image_objects.image_factory import ImageFactory
    case = dict(case, ext="tif")
    d, fn, names, want, internal = collect(case, ctx)
    master = pu.make_master_dict(d)
    i = case["pick"] % case["captures"]
    mine = names[i * 5:i * 5 + 5]
    if case["swap"]:
        # which file is which band is the caller's choice
        mine = mine[::-1]
    pix = array_of(case["seed"], (case["sy"], case["sx"], 5), case["dtype"], "extreme" if case["dtype"] != "float32" else "mixed")
    fnames = {}
    for b, n in enumerate(mine):
        f = ctx.path("images", n)
        Image.fromarray(pix[:, :, b]).save(f)
        fnames["band%d" % (b + 1)] = f
    im = ImageFactory.micasense.from_image_number_and_pix4d(fnames, master)
    ctx.equal_arrays(im.read_all_image_data_from_disk(), pix, "all bands")
    for b in range(5):
        ctx.equal_arrays(im.read_band_from_disk(b), pix[:, :, b], "band %d" % b)
    ctx.equal(os.path.basename(im.get_metadata().get_image_name()), mine[0].rsplit("_", 1)[0], "image name")
    ctx.equal((im.get_metadata().get_n_bands(), im.get_metadata().get_nodata_val()), (5, 0), "metadata")
    sm = im.get_point_calculator()
    ctx.check(not sm.bands_coregistered(), "the bands of five cameras are not coregistered")
    ctx.equal(sm.get_num_point_calcs(), 5, "number of cameras")
    g = rng(case["seed"] + 9)
    proj = sm.get_projection()
    for b, n in enumerate(mine):
        c = want[n]
        ref = cams.reference(c)
        # ground points within the field of view, below the camera
        h = c["H"] * 0.3 * math.tan(math.radians(c["half_fov"]))
        x0 = c["X"] + c["H"] * math.tan(math.radians(c["ph"]))
        X, Y, Z = c["X"] + g.uniform(-h, h, case["m"]), c["Y"] + g.uniform(-h, h, case["m"]), g.uniform(-0.1, 0.3, case["m"]) * c["H"]
        wx, wy = ref.project(X, Y, Z)
        tol = 1e-6 * max(c["nx"], c["ny"]) + 1e-3
        gx, gy = sm.lon_lat_alt_to_pixel_x_y(X, Y, Z, world_proj=proj, band=b)
        ctx.close_to(gx, wx, "pixel columns of band %d" % b, rtol=1e-6, atol=tol)
        ctx.close_to(gy, wy, "pixel rows of band %d" % b, rtol=1e-6, atol=tol)
        gx, gy = sm.get_point_calc(b).lon_lat_alt_to_pixel_x_y(X, Y, Z, world_proj=proj)
        ctx.close_to(gx, wx, "pixel columns of camera %d" % b, rtol=1e-6, atol=tol)
    a = want[mine[0]]
    ctx.close_to(sm.get_approximate_lon_lat_center(), (a["X"], a["Y"]), "approximate centre", rtol=1e-15)
    ctx.label(case["dtype"])
    ctx.nontrivial(case["captures"] > 1)


ocv = fixed(seed=seeds(), order=seeds(), m=side(12, 2000), off=st.booleans())


@sub(P, "opencv_cameras", ocv, quick=200, rule="always")
def opencv_cameras(case, ctx):
    """a Micasense image with calibrated cameras: each band file gets the parameters listed under its band number"""
    from resippy.image_objects.image_factory import ImageFactory
    g = rng(case["seed"])
    params, cs = [], {}
    for b in range(1, 6):
        c = camera(g, 400, 300)
        c.update(kind="opencv", cx=float(g.uniform(-.1, .1)), cy=float(g.uniform(-.1, .1)), zone=18, south=False)
        for k in ("ox", "oy", "oz"):
            c[k] = float(g.uniform(-3, 3)) if case["off"] else 0.0
        for k, s in (("dom", 5), ("dph", 5), ("dka", 20)):
            c[k] = float(g.uniform(-s, s)) if case["off"] else 0.0
        fx, fy, cx, cy = cams.opencv_intrinsics(c)
        cs[b] = c
        params.append(dict(band_number=b, fx_pixels=fx, fy_pixels=fy, cx_pixels=cx, cy_pixels=cy, k1=c["k1"], k2=c["k2"], k3=c["k3"], p1=c["p1"], p2=c["p2"], pixel_pitch_microns=c["pitch"],
                           x_offset_meters=c["ox"], y_offset_meters=c["oy"], z_offset_meters=c["oz"], omega_offset_radians=math.radians(c["dom"]), phi_offset_radians=math.radians(c["dph"]),
                           kappa_offset_radians=math.radians(c["dka"])))
    params = [params[i] for i in rng(case["order"]).permutation(5)]
    bands = list(rng(case["order"] + 1).permutation(5) + 1)
    im = ImageFactory.micasense.from_image_number_and_opencv({"band%d" % (i + 1): "/data/IMG_0404_%d.tif" % b for i, b in enumerate(bands)}, params)
    sm = im.get_point_calculator()
    for i, b in enumerate(bands):
        c = cs[b]
        c.update(X=5e5, Y=4e6, H=500.0, om=3.0, ph=-2.0, ka=40.0)
        pc = sm.get_point_calc(i)
        pc.init_extrinsic(c["X"], c["Y"], c["H"], math.radians(c["om"]), math.radians(c["ph"]), math.radians(c["ka"]))
        X, Y, Z = c["X"] + g.uniform(-50, 50, case["m"]), c["Y"] + g.uniform(-50, 50, case["m"]), g.uniform(-20, 20, case["m"])
        wx, wy = cams.reference(c).project(X, Y, Z)
        gx, gy = sm.lon_lat_alt_to_pixel_x_y(X, Y, Z, world_proj=sm.get_projection(), band=i)
        ctx.close_to(gx, wx, "pixel columns of band %d" % b, rtol=1e-6, atol=1e-3)
        ctx.close_to(gy, wy, "pixel rows of band %d" % b, rtol=1e-6, atol=1e-3)
    ctx.nontrivial()


mem = fixed(ny=side(12, 500), nx=side(12, 500), nb=st.one_of(st.integers(1, 6), st.integers(7, 12)), seed=seeds(), dtype=st.sampled_from(["uint8", "uint16", "float32", "int32"]), named=st.booleans())


@sub(P, "from_memory", mem, quick=200, rule="several bands")
def from_memory(case, ctx):
    """a Micasense image made of an array holds the array's bands, in order, in files in the working directory"""
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.micasense.micasense_metadata import MicasenseMetadata
    a = array_of(case["seed"], (case["ny"], case["nx"], case["nb"]), case["dtype"], "extreme" if case["dtype"] != "float32" else "mixed")
    if case["ny"] == 1 or case["nx"] == 1:
        # (PIL makes images of two-dimensional arrays only)
        a = np.repeat(np.repeat(a, 2 if case["ny"] == 1 else 1, 0), 2 if case["nx"] == 1 else 1, 1)
    d = os.path.dirname(ctx.path("w d", "x"))
    kw = {"band_basenames": ["b_%d.tif" % (case["nb"] - i) for i in range(case["nb"])]} if case["named"] else {}
    a0 = a.copy()
    md, pc = MicasenseMetadata(), object()
    im = ImageFactory.micasense.from_numpy_and_pix4d(a, md, pc, d, **kw)
    ctx.equal_arrays(a, a0, "the caller's image")
    ctx.equal_arrays(im.read_all_image_data_from_disk(), a, "all bands")
    for b in range(case["nb"]):
        ctx.equal_arrays(im.read_band_from_disk(b), a[:, :, b], "band %d" % b)
        ctx.equal(os.path.dirname(im.band_fnames[b]), d, "directory of a band file")
        if case["named"]:
            ctx.equal(os.path.basename(im.band_fnames[b]), kw["band_basenames"][b], "name of a band file")
    ctx.equal(len(os.listdir(d)), case["nb"], "files written")
    ctx.check(im.get_metadata() is md and im.get_point_calculator() is pc, "metadata and point calculator")
    ctx.nontrivial(case["nb"] > 1)


part = st.tuples(uint(0, 59), st.sampled_from([1, 1, 1, 10, 100, 10000]), uint(0, 9999))
exif = fixed(t=st.tuples(uint(1981, 2050), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)), sub=st.integers(1, 999999), lon=st.tuples(uint(0, 179), part, part),
             lat=st.tuples(uint(0, 89), part, part), w=st.booleans(), s=st.booleans(), den=st.sampled_from([1, 1, 10, 1000]), band=st.integers(0, 4))


@sub(P, "exif", exif, quick=300, rule="minutes or seconds with a fraction")
def exif_position(case, ctx):
    """the time and place of a band are those of its file's EXIF data"""
    from PIL import Image
    from PIL.TiffImagePlugin import IFDRational
    from checks.c22 import gps, WEEK
    from resippy.image_objects.earth_overhead.micasense.micasense_image import MicasenseImage

    def dms(v):
        d, m, s = v
        D = IFDRational(d * case["den"], case["den"])
        M = IFDRational(m[0] * m[1] + m[2] % m[1], m[1])
        S = IFDRational(s[0] * s[1] + s[2] % s[1], s[1])
        return (D, M, S), d + (m[0] + (m[2] % m[1]) / m[1]) / 60.0 + (s[0] + (s[2] % s[1]) / s[1]) / 3600.0
    lon, wlon = dms(case["lon"])
    lat, wlat = dms(case["lat"])
    ex = Image.Exif()
    e = ex.get_ifd(0x8769)
    e[36867] = "%04d:%02d:%02d %02d:%02d:%02d" % tuple(case["t"])
    e[37520] = "%d" % case["sub"]
    g = ex.get_ifd(0x8825)
    g[1], g[2], g[3], g[4] = "S" if case["s"] else "N", lat, "W" if case["w"] else "E", lon
    f = ctx.path("IMG_1.jpg")
    Image.fromarray(np.zeros((4, 5), np.uint8)).save(f, exif=ex)
    im = MicasenseImage()
    im.band_fnames = ["/nowhere/%d.jpg" % i for i in range(5)]
    im.band_fnames[case["band"]] = f
    got = im.get_gps_timestamp_and_center(case["band"])
    utc = calendar.timegm(tuple(case["t"]))
    ctx.close_to(got["gps_timestamp"], gps(utc) % WEEK + float("0.%d" % case["sub"]), "GPS second of the week", rtol=0, atol=1e-5)
    ctx.close_to(got["center"]["lon"], (-1 if case["w"] else 1) * wlon, "longitude", rtol=0, atol=1e-9)
    ctx.close_to(got["center"]["lat"], (-1 if case["s"] else 1) * wlat, "latitude", rtol=0, atol=1e-9)
    ctx.nontrivial(case["lon"][1][1] > 1 or case["lon"][2][1] > 1 or case["den"] > 1)


again(P, "files", ("stem", "ext", "prefix", "captures", "bands"), 30, same_files=False)
again(P, "image", ("stem", "captures", "seed"), 20, same_files=False)
again(P, "opencv_cameras", ("order",), 30)
again(P, "from_memory", ("ny", "nx", "nb", "named"), 30, same_files=False)
again(P, "exif", ("band",), 30)
