"""C03  RPC sensor model: RPC00B / GDAL agreement, from coefficients and from image files."""
import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, assume_note, Discard, results_stay, sub
from harness.gens import array_of, fixed, logq, q, rng, seeds

P = "C03"
results_stay(P)
assume_note(P, "denominators stay away from zero (their constant term dominates), as in every delivered RPC")


def lonlath(c, n, seed, spread=0.95):
    g = rng(seed)
    return (c["lon_off"] + g.uniform(-spread, spread, n) * c["lon_scale"],
            c["lat_off"] + g.uniform(-spread, spread, n) * c["lat_scale"],
            c["h_off"] + g.uniform(-spread, spread, n) * c["h_scale"])


def pixel_tol(c):
    return 1e-6 * max(c["samp_scale"], c["line_scale"])


# a wide range of polynomial terms here: only the forward model is evaluated, nothing has to be invertible
wide = cams.rpc_case().flatmap(lambda c: fixed(cub=st.sampled_from([c["cub"], 1e-3, 1e-2]),
                                               quad=st.sampled_from([c["quad"], 1e-2]))
                               .map(lambda o: {**c, **o}))


@sub(P, "rpc00b_polynomials", fixed(cam=wide, n=st.integers(1, 12), seed=seeds()), quick=1000,
     rule="every one of the 20 terms of all four polynomials is non-zero and contributes more than the tolerance")
def rpc00b(case, ctx):
    c = case["cam"]
    # places of the region the coefficients were fitted on, and sometimes beyond it
    beyond = case["seed"] % 4 == 0
    lon, lat, h = lonlath(c, case["n"], case["seed"], 3.0 if beyond else 0.95)
    x, y = cams.build(c).lon_lat_alt_to_pixel_x_y(lon.copy(), lat.copy(), h.copy())
    ref = cams.RefRPC(c)
    rx, ry = ref.project(lon, lat, h)
    if beyond:
        (sn, sd), (ln, ld) = cams.rpc_coeffs(c)
        P_, L_, H_ = (lat - c["lat_off"]) / c["lat_scale"], (lon - c["lon_off"]) / c["lon_scale"], (h - c["h_off"]) / c["h_scale"]
        ok = (np.abs(cams.ref_p(sd, P_, L_, H_)) > 0.3) & (np.abs(cams.ref_p(ld, P_, L_, H_)) > 0.3)
        x, y, rx, ry = x[ok], y[ok], rx[ok], ry[ok]
        ctx.label("beyond")
    ctx.close_to(x, rx, "sample", rtol=1e-9, atol=1e-9 * c["samp_scale"] + 1e-8)
    ctx.close_to(y, ry, "line", rtol=1e-9, atol=1e-9 * c["line_scale"] + 1e-8)
    ctx.nontrivial(c["cub"] > 1e-6)


# the polynomials hold wherever they are asked, also beyond the region the coefficients were fitted on
far = st.one_of(q(-1, 1), q(-1, 1), q(-1, 1), q(-6, 6))
term = fixed(which=st.sampled_from(["samp_num", "samp_den", "line_num", "line_den"]), k=st.integers(0, 19),
             val=st.sampled_from([1.0, -0.5, 0.3]), lon=far, lat=far, h=far)


@sub(P, "single_terms", term, quick=600, rule="all three normalised coordinates away from zero")
def single_terms(case, ctx):
    """one coefficient at a time: which monomial it multiplies, and in which of the four polynomials"""
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
    base = {"samp_num": np.zeros(20), "samp_den": np.zeros(20), "line_num": np.zeros(20), "line_den": np.zeros(20)}
    base["samp_num"][0] = base["line_num"][0] = 0.25
    base["samp_den"][0] = base["line_den"][0] = 4.0
    base[case["which"]][case["k"]] += case["val"]
    pc = RPCPointCalc.init_from_coeffs(base["samp_num"], base["samp_den"], 100.0, 10.0, base["line_num"], base["line_den"],
                                       200.0, 20.0, 2.0, 30.0, 3.0, 40.0, 500.0, 50.0)
    x, y = pc.lon_lat_alt_to_pixel_x_y(np.array([40.0 + 3.0 * case["lon"]]), np.array([30.0 + 2.0 * case["lat"]]),
                                       np.array([50.0 + 500.0 * case["h"]]))
    pr = {k: cams.ref_p(v, case["lat"], case["lon"], case["h"]) for k, v in base.items()}
    if min(abs(pr["samp_den"]), abs(pr["line_den"])) < 0.5:
        raise Discard()
    ctx.close_to(x, [pr["samp_num"] / pr["samp_den"] * 100 + 10.5], "sample", rtol=1e-9, atol=1e-9)
    ctx.close_to(y, [pr["line_num"] / pr["line_den"] * 200 + 20.5], "line", rtol=1e-9, atol=1e-9)
    ctx.label(case["which"])
    ctx.nontrivial(min(abs(case["lon"]), abs(case["lat"]), abs(case["h"])) > 0.01)


def rpc_metadata(c):
    (sn, sd), (ln, ld) = cams.rpc_coeffs(c)
    s = lambda a: " ".join(repr(float(v)) for v in a)
    return {"LINE_OFF": repr(c["line_off"]), "SAMP_OFF": repr(c["samp_off"]), "LAT_OFF": repr(c["lat_off"]),
            "LONG_OFF": repr(c["lon_off"]), "HEIGHT_OFF": repr(c["h_off"]), "LINE_SCALE": repr(c["line_scale"]),
            "SAMP_SCALE": repr(c["samp_scale"]), "LAT_SCALE": repr(c["lat_scale"]), "LONG_SCALE": repr(c["lon_scale"]),
            "HEIGHT_SCALE": repr(c["h_scale"]), "LINE_NUM_COEFF": s(ln), "LINE_DEN_COEFF": s(ld),
            "SAMP_NUM_COEFF": s(sn), "SAMP_DEN_COEFF": s(sd)}


filecase = fixed(cam=cams.rpc_case(), n=st.integers(1, 8), seed=seeds(), nx=st.integers(1, 12), ny=st.integers(1, 12),
                 nb=st.integers(1, 3), dtype=st.sampled_from(["uint8", "uint16", "int16", "float32"]),
                 ext=st.sampled_from(["tif", "TIF", "dat.tif"]), nodata=st.sampled_from([None, 0.0, 7.0]))


@sub(P, "rpc_image_file_vs_gdal", filecase, quick=250, rule="rational terms present; heights differ from the height offset")
def rpc_file(case, ctx):
    """an image file carrying RPC metadata: agreement with GDAL's own RPC transformer, and the pixels themselves"""
    from osgeo import gdal
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
    c = case["cam"]
    fname = ctx.path("rpc_image." + case["ext"])
    data = array_of(case["seed"], (case["ny"], case["nx"], case["nb"]), case["dtype"])
    from osgeo import gdal_array
    ds = gdal.GetDriverByName("GTiff").Create(fname, case["nx"], case["ny"], case["nb"],
                                              gdal_array.NumericTypeCodeToGDALTypeCode(np.dtype(case["dtype"]).type))
    for b in range(case["nb"]):
        ds.GetRasterBand(b + 1).WriteArray(np.ascontiguousarray(data[:, :, b]))
        if case["nodata"] is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(case["nodata"])
    ds.SetMetadata(rpc_metadata(c), "RPC")
    ds = None
    lon, lat, h = lonlath(c, case["n"], case["seed"])
    img = ImageFactory.digital_globe.view_ready_stereo.from_file(fname)
    md = img.get_metadata()
    ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (case["nx"], case["ny"], case["nb"]), "image size")
    ctx.equal(md.get_nodata_val(), case["nodata"], "no-data value")
    arr = img.read_all_image_data_from_disk()
    ctx.equal(str(arr.dtype), case["dtype"], "data type")
    ctx.equal_arrays(arr, data, "pixels")
    for b in range(case["nb"]):
        ctx.equal_arrays(img.read_band_from_disk(b), data[:, :, b], "band %d" % b)
    # GDAL (its metadata are decimals of 15 digits)
    digits = 4e-15 * max(abs(c[k + "_off"]) / c[k + "_scale"] for k in ("lon", "lat", "h"))
    src = gdal.Open(fname)
    for pc, what in ((img.get_point_calculator(), "image"), (RPCPointCalc.init_from_file(fname), "point calculator")):
        x, y = pc.lon_lat_alt_to_pixel_x_y(lon.copy(), lat.copy(), h.copy())
        for i in range(case["n"]):
            tr = gdal.Transformer(src, None, ["METHOD=RPC", "RPC_HEIGHT=0"])
            pts, ok = tr.TransformPoints(1, [(float(lon[i]), float(lat[i]), float(h[i]))])
            if not ok[0]:
                ctx.label("gdal_refused")
                continue
            ctx.close_to([x[i], y[i]], [pts[0][0], pts[0][1]], what + " against GDAL's RPC transformer", rtol=1e-11,
                         atol=1e-11 * max(c["samp_scale"], c["line_scale"]) + 2e-8)
        rx, ry = cams.RefRPC(c).project(lon, lat, h)
        ctx.close_to(x, rx, what + " sample", rtol=1e-11, atol=(1e-11 + digits) * c["samp_scale"] + 2e-8)
        ctx.close_to(y, ry, what + " line", rtol=1e-11, atol=(1e-11 + digits) * c["line_scale"] + 2e-8)
    cen = img.get_point_calculator().get_approximate_lon_lat_center()
    ctx.close_to(cen, (c["lon_off"], c["lat_off"]), "approximate centre", rtol=1e-9)
    ctx.nontrivial(c["cub"] > 1e-7)


# thousands of points in one call
sub(P, "many_points", fixed(cam=wide, n=logq(300, 100000).map(int), seed=seeds()), quick=30,
    rule="all terms of the polynomials contribute")(rpc00b)


# one use after another
again(P, "rpc00b_polynomials", ("n", "seed"), 60)
again(P, "rpc_image_file_vs_gdal", ("nx", "ny", "nb", "ext"), 40, always=True)
