"""C07  GeoTIFF images: what is written is what is read, in memory, on disk and through GDAL."""
import numpy as np
from hypothesis import strategies as st

from harness.core import again, sub
from harness.gens import DTYPES, array_of, fixed, q, rng, seeds
from harness.rasters import (apply_affine, crs_strategy, epsg, geot, geot_strategy, make_proj, nodata_strategy,
                             read_gtiff, same_nodata, same_place, wkt, write_gtiff)

P = "C07"

image = st.sampled_from(DTYPES * 2 + ["int64", "uint64", "int8", "complex64", "complex128"]).flatmap(lambda dt: fixed(
    dtype=st.just(dt), nodata=nodata_strategy(dt), nx=st.integers(1, 40), ny=st.integers(1, 40), nb=st.integers(0, 5),
    kind=st.sampled_from(["mixed", "small", "extreme"]), seed=seeds(), crs=crs_strategy(), gt=geot_strategy(),
    geot_as=st.sampled_from(["list", "array", "tuple"]), order=st.sampled_from(["C", "F", "strided"])))


def data_of(c):
    shape = (c["ny"], c["nx"]) + ((c["nb"],) if c["nb"] else ())
    if c["dtype"].startswith("complex"):
        part = {"complex64": "float32", "complex128": "float64"}[c["dtype"]]
        a = (array_of(c["seed"], shape, part, c["kind"]) + 1j * array_of(c["seed"] + 7, shape, part, c["kind"])).astype(c["dtype"])
    else:
        a = array_of(c["seed"], shape, c["dtype"], c["kind"])
    if c["nodata"] is not None and c["nodata"] == c["nodata"]:
        m = rng(c["seed"] + 1).random(shape) < 0.15
        a[m] = c["nodata"]
    if a.ndim == 3 and c["seed"] % 3 == 0:
        # bands that hold nothing, or the same thing everywhere
        g = rng(c["seed"] + 2)
        for b in range(a.shape[2]):
            k = g.integers(0, 4)
            if k == 1:
                a[:, :, b] = 0
            elif k == 2:
                a[:, :, b] = a[0, 0, b]
            elif k == 3 and a.dtype.kind in "if":
                a[:, :, b] = -(np.abs(a[:, :, b]) // 2) if a.dtype.kind == "i" else -np.abs(a[:, :, b])
    if c["order"] == "F":
        a = np.asfortranarray(a)
    elif c["order"] == "strided":
        big = np.zeros((shape[0] * 2, shape[1] * 2) + shape[2:], dtype=a.dtype)
        big[::2, ::2] = a
        a = big[::2, ::2]
    return a


def in_memory(c, a, g):
    from resippy.image_objects.image_factory import ImageFactory
    gg = {"list": list, "tuple": tuple, "array": np.array}[c["geot_as"]](g)
    return ImageFactory.geotiff.from_numpy_array(a, gg, make_proj(c["crs"]), c["nodata"])


def cube(a):
    return a if a.ndim == 3 else a[:, :, None]


def check_image(ctx, img, c, a, g, what, from_file):
    md = img.get_metadata()
    want = cube(a)
    ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (want.shape[1], want.shape[0], want.shape[2]),
              what + ": size")
    ctx.check(same_nodata(md.get_nodata_val(), c["nodata"]), "%s: no-data value %r, expected %r"
              % (what, md.get_nodata_val(), c["nodata"]))
    got = img.read_all_image_data_from_disk() if from_file else img.get_image_data()
    ctx.equal(str(got.dtype), c["dtype"], what + ": data type")
    ctx.equal_arrays(got, want, what + ": pixels")
    for b in range(want.shape[2]):
        one = img.read_band_from_disk(b) if from_file else img.get_image_band(b)
        ctx.equal_arrays(one, want[:, :, b], what + ": band %d" % b)
    pc = img.get_point_calculator()
    ctx.close_to(list(pc.get_geot()), g, what + ": geotransform", rtol=1e-12, atol=1e-9 * abs(g[1]))
    # pixel corners land where the geotransform says, and the CRS says the same place on earth
    xs = np.array([0.0, want.shape[1], 0.0, want.shape[1], 0.5])
    ys = np.array([0.0, 0.0, want.shape[0], want.shape[0], 0.5])
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(xs, ys, None)
    X, Y = apply_affine(g, xs, ys)
    ctx.close_to(lon, X, what + ": ground x", rtol=1e-12, atol=1e-6 * abs(g[1]))
    ctx.close_to(lat, Y, what + ": ground y", rtol=1e-12, atol=1e-6 * abs(g[5]))
    same_place(pc.get_projection().crs.to_wkt(), c["crs"], g, ctx, what + ": CRS")
    if g[2] == 0 and g[4] == 0:
        ext = pc.get_world_extent_native()
        ctx.close_to(ext.bounds, (X.min(), Y.min(), X[:4].max(), Y[:4].max()), what + ": world extent", rtol=1e-12,
                     atol=1e-6 * abs(g[1]))


@sub(P, "write_read", image.flatmap(lambda c: fixed(comp=st.sampled_from(["LZW", "DEFLATE", "PACKBITS", "NONE", None]))
                                    .map(lambda o: {**c, **o})), quick=600,
     rule="more than one pixel, and a no-data value or more than one band")
def write_read(case, ctx):
    from resippy.image_objects.image_factory import ImageFactory
    c = case
    a = data_of(c)
    keep = np.array(a, copy=True)
    g = geot(c["gt"], c["crs"])
    img = in_memory(c, a, g)
    check_image(ctx, img, c, keep, g, "in memory", False)
    f1 = ctx.path("one.tif")
    img.write_to_disk(f1, **({} if c["comp"] is None else {"compression": c["comp"]}))
    raw = read_gtiff(f1)
    ctx.check(raw is not None, "GDAL cannot open the file written")
    ctx.equal(str(raw["data"].dtype), c["dtype"], "file: data type (GDAL)")
    ctx.equal_arrays(raw["data"], cube(keep), "file: pixels (GDAL)")
    ctx.close_to(raw["geot"], g, "file: geotransform (GDAL)", rtol=1e-12, atol=1e-9 * abs(g[1]))
    ctx.check(all(same_nodata(v, c["nodata"]) for v in raw["nodata"]), "file: no-data values %r, expected %r (GDAL)"
              % (raw["nodata"], c["nodata"]))
    same_place(raw["wkt"], c["crs"], g, ctx, "file: CRS (GDAL)")
    back = ImageFactory.geotiff.from_file(f1)
    check_image(ctx, back, c, keep, g, "read back", True)
    # second generation: the file-backed image written again without touching it
    f2 = ctx.path("two.tif")
    back.write_to_disk(f2)
    back.close_image()
    again = ImageFactory.geotiff.from_file(f2)
    check_image(ctx, again, c, keep, g, "second generation", True)
    again.close_image()
    ctx.equal_arrays(a, keep, "the caller's array after all of this")
    ctx.label(c["dtype"], "nodata" if c["nodata"] is not None else "no_nodata")
    ctx.nontrivial(a.size > 1 and (c["nodata"] is not None or c["nb"] > 1))


@sub(P, "foreign_file", image, quick=300, rule="more than one pixel, and a no-data value or more than one band")
def foreign_file(case, ctx):
    """files this package did not write"""
    from resippy.image_objects.image_factory import ImageFactory
    c = case
    a = data_of(c)
    g = geot(c["gt"], c["crs"])
    f = ctx.path("some.dir", "foreign.v1.tif")
    write_gtiff(f, a, g, wkt(c["crs"]), c["nodata"], ["INTERLEAVE=PIXEL"])
    img = ImageFactory.geotiff.from_file(f)
    check_image(ctx, img, c, a, g, "foreign file", True)
    ctx.equal(img.get_metadata().get_image_name(), f[:-len(".tif")], "image name")
    img.close_image()
    ctx.label(c["dtype"])
    ctx.nontrivial(a.size > 1 and (c["nodata"] is not None or c["nb"] > 1))


@sub(P, "gdal_mem_dataset", image, quick=300, rule="more than one pixel, and a no-data value or more than one band")
def gdal_mem_dataset(case, ctx):
    c = case
    a = data_of(c)
    keep = np.array(a, copy=True)
    g = geot(c["gt"], c["crs"])
    img = in_memory(c, a, g)
    ds = img.get_gdal_mem_datset()
    got = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)
    ctx.equal(str(got.dtype), c["dtype"], "data type")
    ctx.equal_arrays(got, cube(keep), "pixels")
    ctx.close_to(list(ds.GetGeoTransform()), g, "geotransform", rtol=1e-12, atol=0)
    for b in range(ds.RasterCount):
        v = ds.GetRasterBand(b + 1).GetNoDataValue()
        ctx.check(same_nodata(v, c["nodata"]), "no-data value %r, expected %r" % (v, c["nodata"]))
    same_place(ds.GetProjection(), c["crs"], g, ctx, "CRS")
    ctx.nontrivial(a.size > 1 and (c["nodata"] is not None or c["nb"] > 1))


# images of many tiles, strips and bands
large = st.tuples(image, st.integers(200, 700), st.integers(200, 700)).map(
    lambda t: {**t[0], "nx": t[1], "ny": t[2], "nb": min(t[0]["nb"], 3), "comp": "LZW"})
many = st.tuples(image, st.integers(30, 300)).map(lambda t: {**t[0], "nx": min(t[0]["nx"], 9), "ny": min(t[0]["ny"], 9), "nb": t[1], "comp": None})
sub(P, "large_write_read", large, quick=12, rule="a no-data value or more than one band")(write_read)
sub(P, "many_bands_write_read", many, quick=8, rule="always")(write_read)
sub(P, "large_foreign_file", large, quick=10, rule="a no-data value or more than one band")(foreign_file)
sub(P, "large_gdal_mem_dataset", large, quick=8, rule="a no-data value or more than one band")(gdal_mem_dataset)

edits = fixed(img=image.map(lambda c: {**c, "nb": max(c["nb"], 1), "order": "C"}), start=st.sampled_from(["memory", "file", "file", "vrt"]),
              ops=st.lists(fixed(op=st.sampled_from(["set_band", "set_all", "nodata", "write", "write", "mem", "overwrite", "warp", "reopen"]),
                                 b=st.integers(0, 4), seed=seeds()), min_size=1, max_size=8))


@sub(P, "edit_history", edits, quick=300, rule="at least one edit followed by a write, a warp or a GDAL export")
def edit_history(case, ctx):
    """a history of band edits, writes (over its own file too), warps and re-openings; every export shows the current
    content and nothing older"""
    from osgeo import gdal
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
    c = dict(case["img"])
    model = cube(np.array(data_of(c), copy=True))
    g = geot(c["gt"], c["crs"])
    fname = ctx.path("home.tif")
    loaded = case["start"] == "memory"
    if case["start"] == "vrt" and not (isinstance(c["nodata"], (int, float)) and abs(c["nodata"]) < 1e6):
        c["nodata"] = None                   # (a VRT keeps no-data values as text of sixteen digits)
    if loaded:
        img = in_memory(c, model.copy(), g)
    elif case["start"] == "vrt":
        # a virtual file over the real one, which it opens when its pixels are first needed
        write_gtiff(fname, model, g, wkt(c["crs"]), c["nodata"])
        gdal.Translate(ctx.path("home.vrt"), fname, format="VRT")
        img = ImageFactory.geotiff.from_file(ctx.path("home.vrt"))
    else:
        write_gtiff(fname, model, g, wkt(c["crs"]), c["nodata"])
        img = ImageFactory.geotiff.from_file(fname)

    def load():
        if img.get_image_data() is None:
            img.set_image_data(img.read_all_image_data_from_disk())

    def check_file(f, what):
        raw = read_gtiff(f)
        ctx.equal_arrays(raw["data"], model, "file after " + what)
        ctx.check(all(same_nodata(v, c["nodata"]) for v in raw["nodata"]), "no-data in the file after " + what)
        back = ImageFactory.geotiff.from_file(f)
        check_image(ctx, back, c, model, g, "read back after " + what, True)
        back.close_image()

    edited = exported = False
    for k, op in enumerate(case["ops"]):
        nb = model.shape[2]
        what = "step %d (%s)" % (k, op["op"])
        part = "float64" if c["dtype"].startswith("complex") else c["dtype"]
        if op["op"] == "set_band":
            load()
            new = array_of(op["seed"], model.shape[:2], part, "small").astype(c["dtype"])
            img.set_image_band(new.copy(), op["b"] % nb)
            model[:, :, op["b"] % nb] = new
            edited = True
        elif op["op"] == "set_all":
            model = array_of(op["seed"], model.shape, part, "small").astype(c["dtype"])
            img.set_image_data(model.copy())
            edited = True
        elif op["op"] == "nodata":
            load()
            c["nodata"] = op["seed"] % 100
            img.get_metadata().set_nodata_val(c["nodata"])
            edited = True
        elif op["op"] == "write":
            f = ctx.path("w%d.tif" % k)
            img.write_to_disk(f)
            check_file(f, what)
            exported = exported or edited
        elif op["op"] == "overwrite":
            img.write_to_disk(fname)
            check_file(fname, what)
            exported = exported or edited
        elif op["op"] == "reopen":
            img.write_to_disk(ctx.path("r%d.tif" % k))
            img.close_image()
            img = ImageFactory.geotiff.from_file(ctx.path("r%d.tif" % k))
        elif op["op"] == "warp":
            if c["dtype"] in ("int64", "uint64", "int8"):
                continue
            # where a pixel's place is a tie, what GDAL shows depends on how the source is stored
            write_gtiff(ctx.path("warp_ref.tif"), model, g, wkt(c["crs"]), c["nodata"])
            mem = write_gtiff("", model, g, img.get_point_calculator().get_gdal_projection_wkt(), c["nodata"], driver="MEM")
            refs = []
            for n, src in enumerate((ctx.path("warp_ref.tif"), mem)):
                if gdal.Warp(ctx.path("warp_out%d.tif" % n), src) is not None:
                    refs.append(read_gtiff(ctx.path("warp_out%d.tif" % n))["data"])
            if len(refs) < 2:
                continue                     # GDAL has no inverse for some extreme geotransforms
            out = GeotiffImage.gdalwarp_geotiff_image(img, gdal.WarpOptions()).read_all_image_data_from_disk()
            # (a VRT keeps no-data values as text of sixteen digits)
            if not (out.shape == refs[1].shape and np.isclose(out, refs[1], rtol=1e-14, atol=0, equal_nan=True).all()):
                ctx.close_to(out, refs[0], "warped image after " + what, rtol=1e-14, atol=0)
            exported = exported or edited
        else:
            ds = img.get_gdal_mem_datset()
            got = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)
            ctx.equal_arrays(got, model, "GDAL dataset after " + what)
            exported = exported or edited
        if img.get_image_data() is not None:
            ctx.equal_arrays(img.get_image_data(), model, "content after " + what)
        for b in range(nb):
            if img.get_image_data() is not None:
                ctx.equal_arrays(img.get_image_band(b), model[:, :, b], "band after " + what)
    ctx.nontrivial(exported)


warp = fixed(nx=st.integers(4, 24), ny=st.integers(4, 24), nb=st.integers(1, 3), seed=seeds(),
             dtype=st.sampled_from(["uint8", "int16", "float32", "float64"]), crs=crs_strategy(),
             gt=geot_strategy(False), dst=st.sampled_from([3857, 4326, 32618]), backed=st.sampled_from(["file", "memory"]),
             alg=st.sampled_from(["near", "bilinear"]), named=st.booleans(), aspect=q(0.6, 1.6), half=st.booleans(), again=st.booleans())


@sub(P, "warp_matches_gdal", warp, quick=200, rule="source and destination CRS differ")
def warp_matches_gdal(case, ctx):
    """reprojection through the image object is GDAL's own reprojection of an equivalent dataset"""
    from osgeo import gdal
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
    c = dict(case)
    gx = max(c["gt"]["gx"], 0.5)
    c["gt"] = {**c["gt"], "gx": gx, "gy": gx * c["aspect"]}
    if c["dst"] == 32618 and c["crs"]["kind"] != "4326":
        c["crs"] = {"kind": "epsg_utm", "zone": 18, "south": False}
    if c["dst"] == 32618 and c["crs"]["kind"] == "4326":
        c["gt"] = {**c["gt"], "u": (170 - 75 + c["gt"]["u"]) / 340, "v": 0.5 + 0.4 * c["gt"]["v"]}
    a = array_of(c["seed"], (c["ny"], c["nx"], c["nb"]), c["dtype"], "small")
    g = geot(c["gt"], c["crs"])
    if c["backed"] == "file":
        f = ctx.path("src.tif")
        write_gtiff(f, a, g, wkt(c["crs"]))
        img = ImageFactory.geotiff.from_file(f)
    else:
        img = ImageFactory.geotiff.from_numpy_array(a.copy(), g, make_proj(c["crs"]), None)
    kw = dict(dstSRS="EPSG:%d" % c["dst"], resampleAlg=c["alg"])
    if c["half"]:
        kw.update(width=7, height=5)
    ref_src = ctx.path("ref_src.tif")
    write_gtiff(ref_src, a, g, wkt(c["crs"]))
    ref_ds = gdal.Warp(ctx.path("ref.tif"), ref_src, options=gdal.WarpOptions(**kw))
    if ref_ds is None:
        ctx.label("gdal_refused")
        return
    ref_ds = None
    ref = read_gtiff(ctx.path("ref.tif"))
    out = GeotiffImage.gdalwarp_geotiff_image(img, gdal.WarpOptions(**kw), **({"dst_fname": ctx.path("out.tif")}
                                                                              if c["named"] else {}))
    got = out.read_all_image_data_from_disk()
    ctx.equal(got.shape, ref["data"].shape, "shape of the warped image")
    ctx.equal(str(got.dtype), c["dtype"], "data type of the warped image")
    ctx.close_to(list(out.get_point_calculator().get_geot()), ref["geot"], "geotransform of the warped image",
                 rtol=1e-9, atol=1e-6 * abs(ref["geot"][1]))
    # different descriptions of one CRS may move a sample by a rounding step: nearly all samples must be identical
    diff = ~np.isclose(got.astype(float), ref["data"].astype(float), rtol=1e-4, atol=0.51 if c["dtype"] in ("uint8", "int16")
                       and c["alg"] == "bilinear" else 1e-3)
    ctx.check(diff.mean() <= 0.05, "%d of %d warped samples differ from GDAL's" % (diff.sum(), diff.size))
    if c["again"]:
        # a warped image can be warped like any other, and stays what it is
        kw2 = dict(dstSRS="EPSG:%d" % {3857: 4326, 4326: 3857, 32618: 4326}[c["dst"]])
        # (at the poles GDAL refuses to warp some very small images, depending on the last digits of their geotransform)
        if gdal.Warp("", out.get_dset(), options=gdal.WarpOptions(format="MEM", **kw2)) is None or gdal.Warp(ctx.path("ref2.tif"), ctx.path("ref.tif"), options=gdal.WarpOptions(**kw2)) is None:
            ctx.label("gdal_refused")
            return
        ref2 = read_gtiff(ctx.path("ref2.tif"))
        out2 = GeotiffImage.gdalwarp_geotiff_image(out, gdal.WarpOptions(**kw2))
        got2 = out2.read_all_image_data_from_disk()
        ctx.equal(got2.shape, ref2["data"].shape, "shape of the image warped twice")
        ctx.close_to(list(out2.get_point_calculator().get_geot()), ref2["geot"], "geotransform of the image warped twice", rtol=1e-9, atol=1e-6 * abs(ref2["geot"][1]))
        d2 = ~np.isclose(got2.astype(float), ref2["data"].astype(float), rtol=1e-4, atol=1e-3)
        ctx.check(d2.mean() <= 0.15, "%d of %d samples warped twice differ from GDAL's" % (d2.sum(), d2.size))
        ctx.equal_arrays(out.read_all_image_data_from_disk(), got, "the image warped once, after it was warped again")
    ctx.label(c["backed"], "named" if c["named"] else "default_name")
    ctx.nontrivial(epsg(c["crs"]) != c["dst"])


vert = fixed(nx=st.integers(3, 16), ny=st.integers(3, 16), seed=seeds(), crs=crs_strategy(), gt=geot_strategy(False),
             backed=st.sampled_from(["file", "memory"]), code=st.sampled_from([5714, "5714"]))


@sub(P, "vertical_datum", vert, quick=60, rule="every case (the whole path is exercised)")
def vertical_datum(case, ctx):
    """heights relabelled to a vertical datum without a geoid model keep grid and values and carry the new datum"""
    from pyproj import CRS
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
    c = dict(case)
    gx = min(max(c["gt"]["gx"], 0.5), 50.0)
    c["gt"] = {**c["gt"], "gx": gx, "gy": gx}
    a = array_of(c["seed"], (c["ny"], c["nx"], 1), "float32", "small")
    g = geot(c["gt"], c["crs"])
    if c["backed"] == "file":
        f = ctx.path("src.tif")
        write_gtiff(f, a, g, wkt(c["crs"]))
        img = ImageFactory.geotiff.from_file(f)
    else:
        img = ImageFactory.geotiff.from_numpy_array(a.copy(), g, make_proj(c["crs"]), None)
    dst = ctx.path("vert.tif")
    out = GeotiffImage.reproject_vertical_datum(img, dst, c["code"])
    raw = read_gtiff(dst)
    crs = CRS.from_wkt(raw["wkt"])
    ctx.check(crs.is_compound and "MSL" in crs.sub_crs_list[1].name, "vertical datum recorded: %s" % crs.name)
    same_place(crs.sub_crs_list[0].to_wkt(), c["crs"], g, ctx, "horizontal CRS")
    ctx.equal(raw["data"].shape, a.shape, "shape")
    ctx.close_to(raw["geot"], g, "geotransform", rtol=1e-9, atol=1e-3 * abs(g[1]))
    ctx.close_to(raw["data"], a, "heights", rtol=1e-6, atol=1e-4)
    ctx.equal_arrays(out.read_all_image_data_from_disk(), raw["data"], "the image returned")
    ctx.nontrivial()


# one use after another
again(P, "write_read", ("nx", "ny", "nb", "dtype", "nodata"), 60)
again(P, "foreign_file", ("nx", "ny", "nb", "dtype", "nodata"), 60)
again(P, "warp_matches_gdal", (), 24, most=3)
again(P, "vertical_datum", (), 24, most=3)
