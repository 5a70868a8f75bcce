"""C10  Orthorectification: every output pixel shows what the camera saw at that pixel's place on the terrain."""
import numpy as np
from hypothesis import strategies as st

from harness import cams, dems, scenes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, q, rng, seeds, uint
from harness.rasters import apply_affine, read_gtiff
from checks.c01 import CRS_NAMES, to_native, world_crs

P = "C10"
results_stay(P)
assume_note(P, "an image sample sits at its integer pixel position; the outermost two rows and columns of the image may be "
               "shown or be no-data; integer images are reproduced to +-1; pixels whose position is within the numerical noise "
               "of a decision are not judged")


def crs_of(name, c):
    if name == "native":
        return cams.proj_of(c)
    return world_crs(name, c)


def convert(x, y, src, dst):
    if src.srs == dst.srs:
        return np.asarray(x, float), np.asarray(y, float)
    return to_native(x, y, src, dst)


ortho = fixed(scene=scenes.scene_case(), surf=dems.surface_case(), rel=q(0.05, 1), terrain=st.sampled_from(["surface", "surface", "none"]),
              onx=st.integers(1, 30), ony=st.integers(1, 30), crs=st.sampled_from(["native", "native"] + [n for n in CRS_NAMES if n != "native"]),
              nodata=st.sampled_from([0, 7, 255, 100, 0.5, -9999.25]), order=st.sampled_from([0, 1, 1, 3]), grow=q(-0.45, 0.6), sx=q(-0.4, 0.4),
              sy=q(-0.4, 0.4), ragged=st.booleans(), source=st.sampled_from(scenes.SOURCES), bands=st.sampled_from(["all", "some", "one"]),
              bseed=seeds(), mask=st.booleans(), to_file=st.booleans())


def box_over(case, c, S, crs):
    """a box in the output CRS that overlaps the frame's footprint, possibly reaching well beyond it"""
    from shapely.geometry import Polygon, box
    X, Y = scenes.corners_native(c, S)
    x, y = convert(X, Y, cams.proj_of(c), crs)
    cx, cy = (x.min() + x.max()) / 2, (y.min() + y.max()) / 2
    wx, wy = (x.max() - x.min()) / 2, (y.max() - y.min()) / 2
    k = 1 + case["grow"]
    cx, cy = cx + case["sx"] * wx, cy + case["sy"] * wy
    b = (cx - k * wx, cy - k * wy, cx + k * wx, cy + k * wy)
    if case["ragged"]:
        # only its bounding box matters
        return Polygon([(b[0], cy), (cx - 0.3 * wx * k, b[3]), (b[2], cy + 0.2 * wy * k), (cx, b[1])]), b
    return box(*b), b


def sample(img, px, py, order):
    """value(s) of one band at pixel positions, and how far positional noise of `d` pixels could move it"""
    ny, nx = img.shape
    if order == 0:
        jx, jy = np.clip(np.floor(px + 0.5).astype(int), 0, nx - 1), np.clip(np.floor(py + 0.5).astype(int), 0, ny - 1)
        return img[jy, jx]
    if order == 1:
        x0, y0 = np.clip(np.floor(px).astype(int), 0, nx - 2), np.clip(np.floor(py).astype(int), 0, ny - 2)
        wx, wy = px - x0, py - y0
        return (img[y0, x0] * (1 - wx) * (1 - wy) + img[y0, x0 + 1] * wx * (1 - wy) +
                img[y0 + 1, x0] * (1 - wx) * wy + img[y0 + 1, x0 + 1] * wx * wy)
    from scipy.ndimage import map_coordinates
    return map_coordinates(img.astype(float), [py, px], order=order)


def judge(ctx, got, img, px, py, order, nodata, dtype, what, margin=2.0, noise=2e-3):
    """compare an output band with the image sampled at px, py"""
    ny, nx = img.shape
    imf = img.astype(float)
    scale = np.abs(imf).max()
    inside = (px > noise) & (py > noise) & (px < nx - margin - noise) & (py < ny - margin - noise)
    outside = (px < -noise) | (py < -noise) | (px > nx - 1 + noise) | (py > ny - 1 + noise) | ~np.isfinite(px + py)
    g = got.astype(float)
    if order == 0:
        clear = (np.abs(px - np.floor(px) - 0.5) > noise) & (np.abs(py - np.floor(py) - 0.5) > noise)
        tol = np.zeros(px.shape) + 1e-6 * scale
    else:
        clear = np.ones(px.shape, bool)
        spread = np.ptp(imf)
        tol = np.zeros(px.shape) + (6 if order > 1 else 2) * noise * spread + 1e-5 * scale
    if np.dtype(dtype).kind in "iu":
        tol = tol + 1.001
    want = sample(imf, np.where(inside, px, 1.0), np.where(inside, py, 1.0), order)
    if np.dtype(dtype).kind in "iu":
        # an order that overshoots may leave the range of an integer type: the closest value of the type is shown
        info = np.iinfo(dtype)
        if info.min < 0:
            clear &= (want > info.min + 1) & (want < info.max - 1)
        want = np.clip(want, info.min, info.max)
    a = inside & clear
    # (or of the range of the image)
    bad = a & (np.abs(g - want) > tol) & (np.abs(g - np.clip(want, imf.min(), imf.max())) > tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail("%s: output pixel %s shows %r, the camera saw %r there (at image x=%.4f y=%.4f; %d of %d wrong)"
                 % (what, i, g[i], want[i], px[i], py[i], bad.sum(), a.sum()))
    nd = float(np.array(nodata).astype(dtype))
    bad = outside & (g != nd)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail("%s: output pixel %s is outside the image (x=%.4f y=%.4f of %dx%d) but shows %r, not the no-data value %r"
                 % (what, i, px[i], py[i], nx, ny, g[i], nd))
    return int(a.sum()), int(outside.sum())


def look(case, c, S, ortho_img, crs, band):
    """where in the image each pixel of the ortho image should come from, by its own georeferencing"""
    nx, ny = ortho_img.get_metadata().get_npix_x(), ortho_img.get_metadata().get_npix_y()
    jj, ii = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    X, Y = apply_affine(list(ortho_img.get_point_calculator().get_geot()), jj, ii)
    Xn, Yn = convert(X.ravel(), Y.ravel(), crs, cams.proj_of(c))
    Z = np.zeros(len(Xn)) if case["terrain"] == "none" else S(Xn, Yn)
    cb = scenes.band_case(c, band) if case["source"] == "separate_bands" else c
    px, py = cams.reference(cb).project(Xn, Yn, Z)
    return np.reshape(px, (ny, nx)), np.reshape(py, (ny, nx))


def nodata_for(v, dtype):
    """a no-data value the data type can hold"""
    return abs(int(v)) % 251 if np.dtype(dtype).kind in "iu" and (v < 0 or v != int(v)) else v


def at_zero(s, case):
    """without an elevation model the terrain is level at height zero"""
    if case["terrain"] == "none":
        s = {**s, "cam": {**s["cam"], "z0": 0.0, "h_off": 0.0}} if s["cam"]["kind"] != "rpc" else {
            **s, "cam": {**s["cam"], "h_off": 0.0}}
    return s


@sub(P, "ortho", ortho, quick=900, rule="at least one output pixel inside the image judged, with terrain that is not flat, a foreign CRS, "
     "several bands or output pixels outside the image")
def orthorectify(case, ctx):
    from resippy.photogrammetry import ortho_tools
    s = at_zero(case["scene"], case)
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"], case["rel"])
    data = scenes.pixels_of(s, c)
    crs = crs_of(case["crs"], c)
    img = scenes.make_image(s, c, data, ctx, case["source"])
    ins, outs = ortho_and_judge(case, ctx, s, c, S, data, img, crs)
    if case["source"] != "file":
        ctx.equal_arrays(img.get_image_data(), data, "the source image afterwards")
    ctx.label(c["kind"], case["source"], "inside" if ins else "none_inside", "outside" if outs else "none_outside", case["crs"])
    ctx.nontrivial(ins > 0 and (case["terrain"] == "surface" or case["crs"] != "native" or s["nb"] > 1 or outs > 0))


def ortho_and_judge(case, ctx, s, c, S, data, img, crs):
    from resippy.photogrammetry import ortho_tools
    case = {**case, "nodata": nodata_for(case["nodata"], s["dtype"])}
    poly, b = box_over(case, c, S, crs)
    nb = s["nb"]
    bands = {"all": None, "some": [int(v) for v in rng(case["bseed"]).permutation(nb)[:max(1, nb - 1)]],
             "one": [case["bseed"] % nb]}[case["bands"]]
    dem = None if case["terrain"] == "none" else dems.as_dem(S, cams.proj_of(c))
    f = ctx.path("ortho.tif") if case["to_file"] else None
    kw = {} if case["crs"] == "4326" and case["bseed"] % 2 else {"world_proj": crs}
    out = ortho_tools.create_ortho_gtiff_image_world_to_sensor(
        img, case["onx"], case["ony"], poly, dem=dem, bands=bands, nodata_val=case["nodata"], output_fname=f,
        spline_order=case["order"], mask_no_data_region=case["mask"], **kw)
    shown = list(range(nb)) if bands is None else bands
    got = out.get_image_data()
    ctx.equal(got.shape, (case["ony"], case["onx"], len(shown) + case["mask"]), "shape of the ortho image")
    ctx.equal(str(got.dtype), s["dtype"], "data type of the ortho image")
    md = out.get_metadata()
    ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (case["onx"], case["ony"], len(shown) + case["mask"]), "metadata")
    ctx.equal(md.get_nodata_val(), case["nodata"], "no-data value")
    g = list(out.get_point_calculator().get_geot())
    x0, y0 = apply_affine(g, 0, 0)
    x1, y1 = apply_affine(g, case["onx"], case["ony"])
    t = max(b[2] - b[0], b[3] - b[1]) * 1e-6
    ctx.close_to([x0, y1, x1, y0], b, "ground covered by the ortho image", rtol=0, atol=t)
    ctx.equal(out.get_point_calculator().get_projection().srs, crs.srs, "CRS of the ortho image")
    ins = outs = 0
    for k, band in enumerate(shown):
        px, py = look(case, c, S, out, crs, band)
        a, o = judge(ctx, got[:, :, k], data[:, :, band], px, py, case["order"], case["nodata"], s["dtype"], "band %d" % band)
        ins, outs = ins + a, outs + o
    if case["mask"]:
        ctx.equal_arrays(got[:, :, -1] != 0, got[:, :, 0] != np.array(case["nodata"]).astype(got.dtype), "opaque where the first band has data")
        ctx.equal_arrays(got[:, :, -1][got[:, :, -1] != 0], np.zeros((got[:, :, -1] != 0).sum(), got.dtype) + np.array(255).astype(got.dtype), "alpha")
    if f is not None:
        raw = read_gtiff(f)
        ctx.equal_arrays(raw["data"], got, "the file written")
        ctx.close_to(raw["geot"], g, "the file's geotransform", rtol=1e-12, atol=1e-12)
        ctx.equal(raw["nodata"], [case["nodata"]] * got.shape[2], "the file's no-data value")
    return ins, outs


big = fixed(scene=scenes.scene_case(nb_max=2), surf=dems.surface_case(), rel=q(0.05, 1), terrain=st.sampled_from(["surface", "surface", "none"]), nx=uint(60, 400), ny=uint(60, 400),
            onx=uint(60, 400), ony=uint(60, 400), crs=st.sampled_from(["native", "native"] + [n for n in CRS_NAMES if n != "native"]),
            nodata=st.sampled_from([0, 7, 255, 100, 0.5, -9999.25]), order=st.sampled_from([0, 1, 1, 3]), grow=q(-0.45, 0.6), sx=q(-0.4, 0.4),
            sy=q(-0.4, 0.4), ragged=st.booleans(), source=st.sampled_from(scenes.SOURCES), bands=st.sampled_from(["all", "some", "one"]),
            bseed=seeds(), mask=st.booleans(), to_file=st.booleans())


@sub(P, "large_ortho", big, quick=40, rule="more than 20000 output pixels judged")
def large_ortho(case, ctx):
    """ortho images and source images of hundreds of pixels a side"""
    s = at_zero({**case["scene"], "nx": case["nx"], "ny": case["ny"]}, case)
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"], case["rel"])
    data = scenes.pixels_of(s, c)
    ins, outs = ortho_and_judge(case, ctx, s, c, S, data, scenes.make_image(s, c, data, ctx, case["source"]), crs_of(case["crs"], c))
    ctx.label(c["kind"], case["source"], case["crs"])
    ctx.nontrivial(ins > 20000)


one = fixed(who=st.integers(0, 1), act=st.sampled_from(["ortho", "ortho", "ortho", "edit", "replace"]), surf=dems.surface_case(), rel=q(0.05, 1),
            terrain=st.sampled_from(["surface", "surface", "none"]), onx=uint(1, 20), ony=uint(1, 20), crs=st.sampled_from(["native", "native"] + [n for n in CRS_NAMES if n != "native"]),
            nodata=st.sampled_from([0, 7, 255, 100, 0.5, -9999.25]), order=st.sampled_from([0, 1, 1, 3]), grow=q(-0.45, 0.6), sx=q(-0.4, 0.4), sy=q(-0.4, 0.4), ragged=st.booleans(),
            bands=st.sampled_from(["all", "some", "one"]), bseed=seeds(), mask=st.booleans(), to_file=st.booleans())
several = fixed(scenes=st.tuples(scenes.scene_case(), scenes.scene_case()), sources=st.tuples(st.sampled_from(scenes.SOURCES), st.sampled_from(scenes.SOURCES)),
                steps=st.lists(one, min_size=2, max_size=7))


@sub(P, "one_after_another", several, quick=150, rule="the same image orthorectified twice, with something changed in between")
def one_after_another(case, ctx):
    """two images orthorectified again and again over different ground, terrains and CRSs, and edited in between"""
    world = []
    for s, source in zip(case["scenes"], case["sources"]):
        # without an elevation model the terrain is level at height zero, so that is where both stand
        s = at_zero(s, {"terrain": "none"})
        c = scenes.unpack(s)
        data = scenes.pixels_of(s, c)
        world.append([s, c, data, scenes.make_image(s, c, data, ctx, source), source, 0])
    again = changed = 0
    for t in case["steps"]:
        s, c, data, img, source, n = world[t["who"]]
        if t["act"] == "ortho":
            S = scenes.surface(c, t["surf"], t["rel"])
            ins, _ = ortho_and_judge({**t, "source": source}, ctx, s, c, S, data, img, crs_of(t["crs"], c))
            if ins and n:
                again += 1
            world[t["who"]][5] += ins > 0
        elif source != "file" or t["act"] == "replace":
            g = rng(t["bseed"])
            world[t["who"]][4] = "edited_file" if source == "file" else source
            if t["act"] == "edit":
                k = (slice(g.integers(0, c["ny"]), None), slice(g.integers(0, c["nx"]), None), g.integers(0, s["nb"]))
                img.get_image_data()[k] = np.array(g.integers(1, 250)).astype(s["dtype"])
                data = data.copy()
                data[k] = img.get_image_data()[k]
            else:
                data = g.uniform(1, 250, data.shape).astype(s["dtype"])
                img.set_image_data(data.copy())
            world[t["who"]][2] = data
            changed += 1
    ctx.label("changed:%d" % min(changed, 3), "again:%d" % min(again, 4))
    ctx.nontrivial(again > 0)


same = fixed(seed=seeds(), nx=st.integers(4, 30), ny=st.integers(4, 30), nb=st.integers(1, 3), dtype=st.sampled_from(scenes.DT),
             crs=st.sampled_from(["utm", "4326"]), gx=q(0.5, 20), asp=q(0.5, 2), u=q(0, 1), v=q(0, 1), backed=st.sampled_from(["memory", "file", "edited"]),
             x0=st.integers(-4, 8), y0=st.integers(-4, 8), onx=st.integers(1, 30), ony=st.integers(1, 30), nodata=st.sampled_from([0, 9, -2.25]))


@sub(P, "georeferenced_source", same, quick=200, rule="a crop that is not the whole image")
def georeferenced_source(case, ctx):
    """orthorectifying an image that is a map already: each output pixel is the map sampled at that place"""
    from shapely.geometry import box
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.photogrammetry import ortho_tools
    from harness.rasters import geot, make_proj, wkt, write_gtiff
    case = {**case, "nodata": nodata_for(case["nodata"], case["dtype"])}
    k = {"kind": "4326"} if case["crs"] == "4326" else {"kind": "epsg_utm", "zone": 18, "south": False}
    g = geot({"u": case["u"], "v": case["v"], "gx": case["gx"], "gy": case["gx"] * case["asp"], "north_up": True, "rx": 0, "ry": 0}, k)
    a = rng(case["seed"]).uniform(10, 250, (case["ny"], case["nx"], case["nb"])).astype(case["dtype"])
    if case["backed"] == "memory":
        img = ImageFactory.geotiff.from_numpy_array(a.copy(), g, make_proj(k))
    else:
        f = ctx.path("src.tif")
        write_gtiff(f, a if case["backed"] == "file" else (a[::-1] // 2 + 1).astype(a.dtype), g, wkt(k))
        img = ImageFactory.geotiff.from_file(f)
        if case["backed"] == "edited":
            img.set_image_data(a.copy())
    X0, Y0 = apply_affine(g, case["x0"], case["y0"])
    X1, Y1 = apply_affine(g, case["x0"] + case["onx"], case["y0"] + case["ony"])
    out = ortho_tools.create_ortho_gtiff_image_world_to_sensor(img, case["onx"], case["ony"], box(X0, Y1, X1, Y0), world_proj=make_proj(k),
                                                               nodata_val=case["nodata"], spline_order=1)
    jj, ii = np.meshgrid(np.arange(case["onx"]) + 0.5, np.arange(case["ony"]) + 0.5)
    X, Y = apply_affine(list(out.get_point_calculator().get_geot()), jj, ii)
    px, py = (X - g[0]) / g[1], (Y - g[3]) / g[5]
    for b in range(case["nb"]):
        judge(ctx, out.get_image_data()[:, :, b], a[:, :, b], px, py, 1, case["nodata"], case["dtype"], "band %d" % b)
    # shifted by half a pixel in the map's own registration: the same grid, so the mean of the four neighbours
    ctx.close_to(px - np.floor(px), np.zeros(px.shape) + 0.5, "position within the source pixel", rtol=0, atol=1e-4)
    ctx.nontrivial((case["onx"], case["ony"], case["x0"], case["y0"]) != (case["nx"], case["ny"], 0, 0))


@sub(P, "mask", fixed(seed=seeds(), nx=st.integers(1, 12), ny=st.integers(1, 12), nb=st.integers(1, 4), dtype=st.sampled_from(scenes.DT),
                      nodata=st.sampled_from([0, 3, 100])), quick=100, rule="both kinds of pixel present")
def mask(case, ctx):
    from resippy.photogrammetry import ortho_tools
    a = rng(case["seed"]).integers(0, 5, (case["ny"], case["nx"], case["nb"])).astype(case["dtype"])
    a = laid(a, case["seed"])
    keep = a.copy()
    m = ortho_tools.mask_image(a, case["nodata"])
    ctx.equal(m.shape, (case["ny"], case["nx"], case["nb"] + 1), "shape")
    ctx.equal_arrays(m[:, :, :-1], keep, "the image bands")
    ctx.equal_arrays(m[:, :, -1], np.where(keep[:, :, 0] == case["nodata"], 0, 255).astype(m.dtype), "alpha band")
    ctx.equal_arrays(a, keep, "the caller's image")
    ctx.nontrivial((keep[:, :, 0] == case["nodata"]).any() and (keep[:, :, 0] != case["nodata"]).any())


vals = fixed(scene=scenes.scene_case(kinds=st.one_of(cams.pinhole_case(), cams.rpc_case(), cams.opencv_case())), n=st.integers(1, 6), pseed=seeds(),
             window=st.sampled_from([2, 4, 6, 8]), default=st.booleans(), nodata=st.sampled_from([None, 77]), far=st.booleans(),
             source=st.sampled_from(scenes.SOURCES))


@sub(P, "values_at_places", vals, quick=250, rule="at least one place whose window lies inside the image")
def values_at_places(case, ctx):
    """the mean of the pixels around a place, leaving out no-data; nan for places the image does not show"""
    from resippy.photogrammetry import ortho_tools
    s = dict(case["scene"])
    c = scenes.unpack({**s, "nx": s["nx"] + 10, "ny": s["ny"] + 10})
    S = scenes.surface(c, {"kind": "flat", "a": 0, "b": 0, "phase": 0, "w": 1, "off": 0, "az": 0}, 0.5)
    data = scenes.pixels_of(s, c)
    g = rng(case["pseed"])
    if case["nodata"] is not None:
        data[g.random(data.shape) < 0.3] = case["nodata"]
    img = scenes.make_image(s, c, data, ctx, case["source"], case["nodata"])
    w = 8 if case["default"] else case["window"]
    h = w // 2
    lo = -3 * h if case["far"] else 0
    x = g.integers(lo, c["nx"] + (2 * h if case["far"] else 0), case["n"]) + g.uniform(-0.3, 0.3, case["n"])
    y = g.integers(lo, c["ny"] + (2 * h if case["far"] else 0), case["n"]) + g.uniform(-0.3, 0.3, case["n"])
    X, Y = scenes.invert(cams.reference(c), c, S, x, y, np.zeros(len(x)) + S.z0)
    with np.errstate(all="ignore"):
        got = ortho_tools.get_pixel_values(img, X, Y, np.zeros(len(x)) + S.z0, **({} if case["default"] else {"window": w}))
    ctx.equal(np.shape(got), (s["nb"], case["n"]), "shape of the result")
    seen = 0
    for b in range(s["nb"]):
        cb = scenes.band_case(c, b) if case["source"] == "separate_bands" else c
        px, py = cams.reference(cb).project(X, Y, np.zeros(len(x)) + S.z0)
        for i in range(case["n"]):
            if abs(px[i] - np.floor(px[i]) - 0.5) < 1e-3 or abs(py[i] - np.floor(py[i]) - 0.5) < 1e-3:
                continue
            jx, jy = int(np.floor(px[i] + 0.5)), int(np.floor(py[i] + 0.5))
            if jx - h >= 0 and jy - h >= 0 and jx + h <= c["nx"] and jy + h <= c["ny"]:
                win = data[jy - h:jy + h, jx - h:jx + h, b].astype(float)
                if case["nodata"] is not None:
                    win = win[win != case["nodata"]]
                want = win.mean() if win.size else np.nan
                ctx.close_to(got[b, i], want, "band %d at image x=%.2f y=%.2f" % (b, px[i], py[i]), rtol=1e-5 if s["dtype"] == "float32" else 1e-9, atol=1e-6 if s["dtype"] == "float32" else 1e-9)
                seen += 1
            elif jx + h <= 0 or jy + h <= 0 or jx - h >= c["nx"] or jy - h >= c["ny"]:
                ctx.check(np.isnan(got[b, i]), "a place outside the image (x=%.1f y=%.1f of %dx%d) has the value %r"
                          % (px[i], py[i], c["nx"], c["ny"], got[b, i]))
                ctx.label("outside")
    ctx.nontrivial(seen > 0)


NAMES = {"nearest": 0, "bilinear": 1, "biquadratic": 2, "bicubic": 3, "biquartic": 4, "biquintic": 5}
variant = fixed(scene=scenes.scene_case(), surf=dems.surface_case(), rel=q(0.05, 1), terrain=st.sampled_from(["surface", "none"]), onx=st.integers(1, 24), ony=st.integers(1, 24),
                crs=st.sampled_from(["native", "4326"]), nodata=st.sampled_from([0, 255, -3.5]), interp=st.sampled_from(["nearest", "nearest", "bilinear", "bilinear", "default"]),
                grow=q(-0.45, 0.6), sx=q(-0.4, 0.4), sy=q(-0.4, 0.4), ragged=st.booleans(), source=st.sampled_from(scenes.SOURCES), bseed=seeds(), mask=st.booleans(), to_file=st.booleans())


@sub(P, "ortho_by_name", variant, quick=250, rule="at least one output pixel inside the image judged")
def ortho_by_name(case, ctx):
    """the second orthorectifier, which takes the interpolation by name"""
    from resippy.photogrammetry import ortho_tools
    s = at_zero(case["scene"], case)
    case = {**case, "nodata": nodata_for(case["nodata"], s["dtype"])}
    c = scenes.unpack(s)
    S = scenes.surface(c, case["surf"], case["rel"])
    data = scenes.pixels_of(s, c)
    crs = crs_of(case["crs"], c)
    img = scenes.make_image(s, c, data, ctx, case["source"])
    poly, b = box_over(case, c, S, crs)
    nb = s["nb"]
    bands = None if case["bseed"] % 2 else [int(v) for v in rng(case["bseed"]).permutation(nb)[:max(1, nb - 1)]]
    dem = None if case["terrain"] == "none" else dems.as_dem(S, cams.proj_of(c))
    kw = {} if case["interp"] == "default" else {"interpolation": case["interp"]}
    f = ctx.path("ortho.tif")
    if case["to_file"]:
        kw["output_fname"] = f
    out = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup(img, case["onx"], case["ony"], poly, world_proj=crs, dem=dem, bands=bands,
                                                                      nodata_val=case["nodata"], mask_no_data_region=case["mask"], **kw)
    shown = list(range(nb)) if bands is None else bands
    got = out.get_image_data()
    ctx.equal((got.shape, str(got.dtype)), ((case["ony"], case["onx"], len(shown) + case["mask"]), s["dtype"]), "shape and data type")
    ctx.equal(out.get_metadata().get_nodata_val(), case["nodata"], "no-data value")
    ins = 0
    for k, band in enumerate(shown):
        px, py = look(case, c, S, out, crs, band)
        # up to a pixel beyond the frame the edge may still show, or fade
        far = (px < -1.01) | (py < -1.01) | (px > c["nx"] + 0.01) | (py > c["ny"] + 0.01)
        near = ~far & ((px < 0) | (py < 0) | (px > c["nx"] - 1) | (py > c["ny"] - 1))
        px, py = np.where(near, 0.0, px), np.where(near, 0.0, py)
        a, _ = judge(ctx, got[:, :, k], data[:, :, band], px, py, NAMES.get(case["interp"], 0), case["nodata"], s["dtype"], "band %d" % band, margin=1.0)
        ins += a
    if case["to_file"]:
        raw = read_gtiff(f)
        ctx.equal_arrays(raw["data"], got, "the file written")
        ctx.close_to(raw["geot"], list(out.get_point_calculator().get_geot()), "the file's geotransform", rtol=1e-12, atol=1e-12)
    if case["mask"]:
        ctx.equal_arrays(got[:, :, -1] != 0, got[:, :, 0] != np.array(case["nodata"]).astype(got.dtype), "opaque where the first band has data")
    ctx.label(c["kind"], case["source"], case["interp"])
    ctx.nontrivial(ins > 0)


warped = fixed(seed=seeds(), nx=st.integers(4, 16), ny=st.integers(4, 16), onx=st.integers(1, 8), ony=st.integers(1, 8), dtype=st.sampled_from(["uint8", "float32", "float64"]),
               interp=st.sampled_from(list(NAMES) + ["cubic", ""]), nodata=st.sampled_from([0, 7, -3.5]))


@sub(P, "band_resampling", warped, quick=250, rule="positions between pixels")
def band_resampling(case, ctx):
    """one band resampled at given positions: exact at pixels, interpolated between, no-data outside, unknown names refused"""
    from resippy.utils.image_utils import image_utils
    g = rng(case["seed"])
    a = g.uniform(1, 250, (case["ny"], case["nx"])).astype(case["dtype"])
    a = laid(a, case["seed"])
    keep = a.copy()
    shp = (case["ony"], case["onx"])
    x, y = g.uniform(-6, case["nx"] + 6, shp), g.uniform(-6, case["ny"] + 6, shp)
    whole = g.random(shp) < 0.3
    x, y = np.where(whole, np.clip(np.round(x), 0, case["nx"] - 1), x), np.where(whole, np.clip(np.round(y), 0, case["ny"] - 1), y)
    if case["interp"] not in NAMES:
        try:
            image_utils.grid_warp_image_band(a, x, y, interpolation=case["interp"])
        except ValueError:
            return
        ctx.fail("the interpolation %r was accepted" % case["interp"])
    order = NAMES[case["interp"]]
    if case["dtype"] == "uint8":
        case["nodata"] = max(case["nodata"], 0)
    got = image_utils.grid_warp_image_band(a, laid(x, case["seed"] // 7), laid(y, case["seed"] // 49), nodata_val=case["nodata"], interpolation=case["interp"])
    ctx.equal(np.shape(got), shp, "shape")
    ctx.equal_arrays(a, keep, "the caller's band")
    inside = (x >= 0) & (y >= 0) & (x <= case["nx"] - 1) & (y <= case["ny"] - 1)
    far = (x < -1) | (y < -1) | (x > case["nx"]) | (y > case["ny"])
    ctx.close_to(got[far], np.zeros(far.sum()) + case["nodata"], "outside the band", rtol=0, atol=1e-6)
    ctx.close_to(got[whole], keep[y[whole].astype(int), x[whole].astype(int)], "at pixels", rtol=1e-4, atol=1e-3)
    clear = (np.abs(x - np.floor(x) - 0.5) > 1e-6) & (np.abs(y - np.floor(y) - 0.5) > 1e-6)
    m = inside & clear
    if order < 2:
        ctx.close_to(got[m], sample(keep.astype(float), x[m], y[m], order), "between pixels", rtol=1e-4, atol=1e-3)
    else:
        lo, hi = min(keep.min(), case["nodata"]), max(keep.max(), case["nodata"])
        ctx.check(np.all((got[m] >= lo - 1e-3) & (got[m] <= hi + 1e-3)), "values leave the range of the band")
    ctx.nontrivial(m.any() and not whole.all())


# one use after another
again(P, "georeferenced_source", (), 30, most=3)
again(P, "mask", ("nx", "ny", "nb", "dtype"), 30)
again(P, "values_at_places", ("n",), 30, most=3)
again(P, "ortho_by_name", ("onx", "ony"), 30, most=3)
again(P, "band_resampling", ("nx", "ny", "dtype"), 30)
