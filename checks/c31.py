"""C31  Map tiles of map images (gdal2tiles is not installed: a stand-in reads the image it is given, as gdal2tiles does)."""
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness.core import assume_note, sub
from harness.gens import array_of, fixed, q, rng, seeds, side
from harness.rasters import crs_strategy, geot, geot_strategy, make_proj, nodata_strategy, read_gtiff, write_gtiff, wkt

P = "C31"
assume_note(P, "gdal2tiles is not installed: a stand-in opens the file it is given by name through GDAL, as gdal2tiles does, and cuts tiles of 256 pixels out of it; the warp options of the caller are left at their default; images GDAL itself cannot reproject are left out")


def tiler():
    if "gdal2tiles" not in sys.modules:
        m = types.ModuleType("gdal2tiles")
        m.asked = []

        def generate_tiles(input_file, output_folder, **options):
            from osgeo import gdal
            ds = gdal.Open(str(input_file), gdal.GA_ReadOnly)
            if ds is None:
                raise IOError("cannot open %s" % input_file)
            a = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)
            os.makedirs(output_folder, exist_ok=True)
            n = 0
            for y in range(0, a.shape[0], 256):
                for x in range(0, a.shape[1], 256):
                    np.save(os.path.join(output_folder, "tile_%d_%d.npy" % (y // 256, x // 256)), a[y:y + 256, x:x + 256])
                    n += 1
            m.asked.append(dict(data=a, geot=list(ds.GetGeoTransform()), wkt=ds.GetProjection(), out=os.path.abspath(output_folder),
                                nodata=[ds.GetRasterBand(b + 1).GetNoDataValue() for b in range(ds.RasterCount)]))
        m.generate_tiles = generate_tiles
        sys.modules["gdal2tiles"] = m
    return sys.modules["gdal2tiles"]


one = st.sampled_from(["uint8", "uint8", "int16", "float32"]).flatmap(lambda d: fixed(
    dtype=st.just(d), nodata=st.one_of(st.none(), nodata_strategy(d)), nx=side(20, 300, 4), ny=side(20, 300, 4), nb=st.integers(1, 3), seed=seeds(), crs=crs_strategy(False), gt=geot_strategy(False), aspect=st.sampled_from([1.0, 1.0, 1.5]),
    backed=st.sampled_from(["file", "memory", "read"]), edit=st.booleans(), tile=st.sampled_from(["", "", "deep/er", "there"])))
case_m = fixed(images=st.lists(one, min_size=1, max_size=3), alike=st.sampled_from([True, False, False]), order=st.lists(st.integers(0, 2), min_size=1, max_size=4))


@sub(P, "tiles", case_m, quick=160, rule="several requests for tiles, at least one of them of an image in memory or in a CRS other than web Mercator")
def tiles(case, ctx):
    """tiles are cut from the image as it is at the time, reprojected to web Mercator as GDAL does it; images asked for before or after make no difference, and the image stays as it was"""
    from osgeo import gdal, osr
    from resippy.image_objects.image_factory import ImageFactory
    g2t = tiler()
    cs = [dict(c) for c in case["images"]]
    if case["alike"]:
        cs = [{**c, **{k: cs[0][k] for k in ("nx", "ny", "nb", "crs", "gt", "dtype", "nodata", "aspect")}} for c in cs]
    made = []
    for k, c in enumerate(cs):
        gx = max(c["gt"]["gx"], 0.5)
        c["gt"] = {**c["gt"], "gx": gx, "gy": gx * c["aspect"]}
        a = array_of(c["seed"], (c["ny"], c["nx"], c["nb"]), c["dtype"], "small")
        g = geot(c["gt"], c["crs"])
        if c["backed"] == "memory":
            img = ImageFactory.geotiff.from_numpy_array(a.copy(), g, make_proj(c["crs"]), c["nodata"])
        else:
            f = ctx.path("src%d.tif" % k)
            write_gtiff(f, a, g, wkt(c["crs"]), c["nodata"])
            img = ImageFactory.geotiff.from_file(f)
            if c["backed"] == "read":
                img.set_image_data(img.read_all_image_data_from_disk())
        made.append([img, a, g, c])
    asked = [k % len(made) for k in case["order"]]
    done = 0
    for n, k in enumerate(asked):
        img, a, g, c = made[k]
        if c["edit"] and img.get_image_data() is not None and n > 0:
            b = rng(c["seed"] + n).integers(0, c["nb"])
            a = a.copy()
            a[:, :, b] = array_of(c["seed"] + n, (c["ny"], c["nx"]), c["dtype"], "small")
            img.set_image_band(a[:, :, b], int(b))
            made[k][1] = a
        src = ctx.path("ref_src.tif")
        write_gtiff(src, a, g, wkt(c["crs"]), c["nodata"])
        if gdal.Warp(ctx.path("ref.tif"), src, options=gdal.WarpOptions(dstSRS="EPSG:3857")) is None:
            ctx.label("gdal_refused")
            continue
        ref = read_gtiff(ctx.path("ref.tif"))
        out = ctx.path("tiles%d" % n, c["tile"] or "t")
        if c["tile"] == "there":
            os.makedirs(out)
        before = len(g2t.asked)
        img.create_map_tiles(out)
        ctx.equal(len(g2t.asked), before + 1, "tilings")
        got = g2t.asked[-1]
        ctx.equal(got["out"], os.path.abspath(out), "folder of the tiles")
        s = osr.SpatialReference(wkt=got["wkt"])
        w = osr.SpatialReference()
        w.ImportFromEPSG(3857)
        ctx.check(bool(s.IsSame(w)), "the tiles' CRS is %s" % got["wkt"][:60])
        ctx.equal(got["data"].shape, ref["data"].shape, "shape of the tiled image")
        ctx.equal(str(got["data"].dtype), c["dtype"], "data type of the tiled image")
        ctx.close_to(got["geot"], ref["geot"], "geotransform of the tiled image", rtol=1e-9, atol=1e-6 * abs(ref["geot"][1]))
        diff = ~np.isclose(got["data"].astype(float), ref["data"].astype(float), rtol=1e-4, atol=1e-3, equal_nan=True)
        ctx.check(diff.mean() <= 0.05, "%d of %d tiled samples differ from those of the reprojected image" % (diff.sum(), diff.size))
        if c["nodata"] is not None and c["dtype"] != "float32":
            ctx.equal(got["nodata"], ref["nodata"], "no-data value of the tiled image")
        data = img.get_image_data()
        ctx.equal_arrays(img.read_all_image_data_from_disk() if data is None else data, a, "the image after it was tiled")
        done += 1
        ctx.label(c["backed"], "requests:%d" % done)
    g2t.asked.clear()
    ctx.nontrivial(done > 1 and any(made[k][3]["backed"] != "file" or made[k][3]["crs"]["kind"] != "3857" for k in asked))
