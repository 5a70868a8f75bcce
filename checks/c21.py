"""C21  Image display and simple image arithmetic."""
import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, Discard, results_stay, sub
from harness.gens import array_of, fixed, laid, q, rng, seeds, side, uint

P = "C21"
results_stay(P)
assume_note(P, "colour maps: images with at least two different values (or clip values given, low < high), at least two colours; normalising: at least two different values; resizing: grey, grey+alpha, RGB or RGBA images PIL supports")


def colours(g, n):
    return np.round(g.uniform(0, 1, (n, 3)), 3)


cm = fixed(ny=side(9, 150), nx=side(9, 150), seed=seeds(), dtype=st.sampled_from(["uint8", "int16", "uint16", "int32", "float32", "float64"]), kind=st.sampled_from(["small", "mixed", "extreme"]),
           ncol=st.one_of(st.integers(2, 12), st.sampled_from([64, 127, 128, 129, 200, 255, 256, 300])), bins=st.one_of(st.none(), st.integers(2, 12), st.sampled_from([127, 128, 129, 180, 256])),
           cont=st.booleans(), clip=st.sampled_from(["none", "none", "inside", "outside", "low", "high"]), nodata=st.sampled_from([None, None, "high", "low", "nan"]), out=st.sampled_from([None, "float64"]),
           palette=st.sampled_from(["array", "array", "list", "seaborn", "default"]))


def lookup(v, lo, hi, pal, cont):
    """colour of value v: linear between the palette's colours spread evenly over [lo, hi], or the colour of its bin"""
    n = len(pal)
    t = (v - lo) / (hi - lo)
    t = min(max(t, 0.0), 1.0)
    if cont:
        p = t * (n - 1)
        i = min(int(p), n - 2)
        return pal[i] + (p - i) * (pal[i + 1] - pal[i])
    return pal[min(int(t * n), n - 1)]


@sub(P, "colormap", cm, quick=700, rule="values between, at and beyond the ends of the colour scale")
def colormap(case, ctx):
    """every pixel gets the colour its value has on the scale between the clip values; outside them the end colours"""
    from resippy.utils.image_utils import image_utils as iu
    import seaborn
    a = array_of(case["seed"], (case["ny"], case["nx"]), case["dtype"], case["kind"])
    g = rng(case["seed"] + 1)
    kw = {}
    if case["palette"] == "default":
        pal = np.array(seaborn.color_palette("GnBu_r"))
    elif case["palette"] == "seaborn":
        kw["color_palette"] = seaborn.color_palette("viridis", min(case["ncol"], 60))
        pal = np.array(kw["color_palette"])
    else:
        pal = colours(g, case["ncol"])
        kw["color_palette"] = pal.copy() if case["palette"] == "array" else [tuple(c) for c in pal]
    lo, hi = float(a.min()), float(a.max())
    good = np.ones(a.shape, bool)
    if case["nodata"] == "nan":
        if a.dtype.kind != "f":
            raise Discard()
        good = rng(case["seed"] + 2).random(a.shape) < 0.7
        a[~good] = np.nan
    elif case["nodata"]:
        nd = a.max() if case["nodata"] == "high" else a.min()
        kw["nodata"] = nd.item()
        good = a != nd
    if not good.any():
        raise Discard()
    lo, hi = float(a[good].min()), float(a[good].max())
    span = hi - lo
    if case["clip"] in ("inside", "low"):
        kw["min_clip"] = lo = lo + 0.25 * span
    if case["clip"] in ("inside", "high"):
        kw["max_clip"] = hi = hi - 0.25 * span
    if case["clip"] == "outside":
        kw["min_clip"], kw["max_clip"] = lo, hi = lo - 1.5, hi + 0.5 * span + 1.0
    if not lo < hi:
        raise Discard()
    if case["bins"]:
        kw["n_bins"] = case["bins"]
        n = case["bins"]
        pal = np.array([lookup(t, 0.0, 1.0, pal, True) for t in np.arange(n) / (n - 1.0)])
    if not case["cont"]:
        kw["continuous"] = False
    if case["out"]:
        kw["output_dtype"] = np.float64
    a = laid(a, case["seed"])
    a0 = a.copy()
    got = iu.apply_colormap_to_grayscale_image(a, **kw)
    ctx.equal_arrays(a, a0, "the caller's image")
    ctx.equal(got.shape, a.shape + (3,), "shape")
    ctx.equal(got.dtype, np.dtype(case["out"] or "uint8"), "data type")
    n = len(pal)
    seen = set()
    where = ~np.isnan(a) if a.dtype.kind == "f" else np.ones(a.shape, bool)
    v, gv = a[where].astype(float), got[where].astype(float)
    t = (v - lo) / (hi - lo)
    for name, m in (("below", t < 0), ("above", t > 1), ("end", (t == 0) | (t == 1)), ("inside", (t > 0) & (t < 1))):
        if m.any():
            seen.add(name)
    tc = np.clip(t, 0.0, 1.0)
    if case["cont"]:
        pos = tc * (n - 1)
        i = np.minimum(pos.astype(int), n - 2)
        wants = [pal[i] + (pos - i)[:, None] * (pal[i + 1] - pal[i])]
    else:
        wants = [pal[np.minimum((tc * n).astype(int), n - 1)]]
        # values within rounding of a bin's edge may go to either side
        e = np.round(t * n)
        edge = (np.abs(t * n - e) < 1e-4) & (e > 0) & (e < n)
        e = np.clip(e, 1, n - 1).astype(int)
        wants = [np.where(edge[:, None], pal[e - 1], wants[0]), np.where(edge[:, None], pal[e], wants[0])]
    # uint8 results are cut off: one count of slack.  The image is float32 at worst, so is the position on the scale
    tol = 1e-3 * n if case["out"] and a.dtype == np.float32 else 1e-6 * n if case["out"] else 1.0 + 1e-6 * n
    ok = np.zeros(len(v), bool)
    for w in wants:
        ok |= (np.abs(gv - (w * 255.0 if case["out"] else np.floor(w * 255.0 + 1e-9))) <= tol).all(axis=1)
    for k in np.flatnonzero(~ok)[:1]:
        ctx.fail("pixel value %r on scale %r..%r of %d colours: got %r, expected %r" % (v[k], lo, hi, n, gv[k].tolist(), [(w[k] * 255.0).tolist() for w in wants]))
    ctx.label("continuous" if case["cont"] else "discrete", "colours:%s" % ("many" if n > 128 else "few"), *seen)
    ctx.nontrivial("inside" in seen and len(seen) > 1)


nrm = fixed(ny=side(9, 700), nx=side(9, 700), seed=seeds(), dtype=st.sampled_from(["uint8", "int8", "int16", "uint16", "int32", "uint32", "float32", "float64"]), kind=st.sampled_from(["small", "mixed", "extreme"]),
            lo=q(-300, 300), span=q(0.5, 70000), out=st.sampled_from([None, None, "uint8", "uint16", "float32"]))


@sub(P, "normalize", nrm, quick=500, rule="at least three different values")
def normalize(case, ctx):
    """normalising maps the smallest value to the new minimum, the largest to the new maximum, the others in proportion"""
    from resippy.utils.image_utils import image_utils as iu
    a = array_of(case["seed"], (case["ny"], case["nx"]), case["dtype"], case["kind"])
    if a.min() == a.max():
        raise Discard()
    lo, hi = case["lo"], case["lo"] + case["span"]
    kw = {}
    if case["out"]:
        kw["output_dtype"] = np.dtype(case["out"])
        if case["out"] == "uint8":
            lo, hi = abs(lo) / 4.0, 80 + case["span"] / 500.0
        elif case["out"] == "uint16":
            lo, hi = abs(lo), 500 + case["span"] / 1.2
    a = laid(a, case["seed"])
    a0 = a.copy()
    got = iu.normalize_grayscale_image(a, lo, hi, **kw)
    ctx.equal_arrays(a, a0, "the caller's image")
    v = a.astype(float)
    want = lo + (v - v.min()) / (v.max() - v.min()) * (hi - lo)
    ctx.equal(got.shape, a.shape, "shape")
    single = case["dtype"] == "float32" or case["out"] == "float32"
    scale = max(abs(lo), abs(hi))
    if case["out"] in ("uint8", "uint16"):
        ctx.equal(got.dtype, np.dtype(case["out"]), "data type")
        ctx.check((np.abs(got.astype(float) - np.floor(want)) <= 1).all(), "got %r, expected %r" % (got.tolist(), want.tolist()))
    else:
        ctx.close_to(got, want, "normalised image", rtol=0, atol=scale * (1e-5 if single else 1e-10))
    ctx.label(case["dtype"], "out:" + str(case["out"]))
    ctx.nontrivial(len(np.unique(a)) > 2)


det = fixed(n=side(40, 3000), ny=side(60, 800), nx=side(60, 800), cy=side(12, 256), cx=side(12, 256), seed=seeds(), sign=st.sampled_from(["plus", "both", "minus"]), origin=st.booleans())


@sub(P, "detection", det, quick=400, rule="overlapping chips with different scores")
def detection(case, ctx):
    """every pixel of the detection image has the highest score of the chips that cover it, zero where there is none"""
    from resippy.utils.image_utils import image_utils as iu
    g = rng(case["seed"])
    n, cy, cx = case["n"], case["cy"], case["cx"]
    ul = np.stack([g.integers(0, case["ny"], n), g.integers(0, case["nx"], n)], axis=1)
    if case["origin"]:
        ul[0] = 0
    lo, hi = {"plus": (0, 1), "both": (-1, 1), "minus": (-2, -0.1)}[case["sign"]]
    s = g.uniform(lo, hi, n)
    s, ul = laid(s, case["seed"]), laid(ul, case["seed"] // 7)
    s0, u0 = s.copy(), ul.copy()
    got = iu.create_detection_image_from_scores(s, ul, cx, cy)
    ctx.equal_arrays(s, s0, "the caller's scores")
    ctx.equal_arrays(ul, u0, "the caller's positions")
    ny, nx = ul[:, 0].max() + cy, ul[:, 1].max() + cx
    want = np.full((ny, nx), -np.inf)
    cover = np.zeros((ny, nx), int)
    for v, (y, x) in zip(s, ul):
        want[y:y + cy, x:x + cx] = np.maximum(want[y:y + cy, x:x + cx], v)
        cover[y:y + cy, x:x + cx] += 1
    want[cover == 0] = 0
    ctx.equal_arrays(got, want, "detection image")
    ctx.nontrivial((cover > 1).any())


bl = fixed(ny=side(9, 400), nx=side(9, 400), nb=st.sampled_from([0, 1, 3]), seed=seeds(), d1=st.sampled_from(["uint8", "int16", "uint16", "float32", "float64"]), d2=st.sampled_from(["uint8", "int16", "float64"]),
           p=st.one_of(st.none(), q(0, 1), st.sampled_from([0, 1, 0.25, 0.75])))


@sub(P, "blend", bl, quick=300, rule="a share that is neither none nor all")
def blend(case, ctx):
    """blending weighs each pixel of the two images with the given share and its complement"""
    from resippy.utils.image_utils import image_utils as iu
    shape = (case["ny"], case["nx"]) + ((case["nb"],) if case["nb"] else ())
    a, b = array_of(case["seed"], shape, case["d1"], "extreme" if case["d1"][0] != "f" else "mixed"), array_of(case["seed"] + 1, shape, case["d2"], "extreme" if case["d2"][0] != "f" else "mixed")
    p = case["p"]
    a, b = laid(a, case["seed"]), laid(b, case["seed"] // 7)
    a0, b0 = a.copy(), b.copy()
    got = iu.blend_images(a, b) if p is None else iu.blend_images(a, b, p)
    ctx.equal_arrays(a, a0, "the caller's first image")
    ctx.equal_arrays(b, b0, "the caller's second image")
    f = 0.5 if p is None else p
    want = f * a.astype(float) + (1 - f) * b.astype(float)
    ctx.close_to(got, want, "blended image", rtol=1e-5, atol=1e-2 if "float32" in (case["d1"], case["d2"]) else 1e-6)
    ctx.nontrivial(0 < f < 1)


rs = fixed(ny=side(20, 300), nx=side(20, 300), my=side(40, 400), mx=side(40, 400), nb=st.sampled_from([0, 2, 3, 4]), seed=seeds(), what=st.sampled_from(["noise", "flat", "same"]))


@sub(P, "resize", rs, quick=400, rule="another size in both directions")
def resize(case, ctx):
    """resizing gives the asked rows and columns; flat stays flat, the same size stays the same, and mirrored images resize to mirrored ones"""
    from resippy.utils.image_utils import image_utils as iu
    shape = (case["ny"], case["nx"]) + ((case["nb"],) if case["nb"] else ())
    my, mx = case["my"], case["mx"]
    a = array_of(case["seed"], shape, "uint8", "extreme")
    alpha = case["nb"] in (2, 4)
    if alpha:
        a[..., -1] = 255
    if case["what"] == "flat":
        a[:] = a[0, 0]
    if case["what"] == "same":
        my, mx = case["ny"], case["nx"]
    a = laid(a, case["seed"])
    a0 = a.copy()
    got = iu.resize_image(a, my, mx)
    ctx.equal_arrays(a, a0, "the caller's image")
    ctx.equal(got.shape, (my, mx) + shape[2:], "shape")
    ctx.equal(got.dtype, a.dtype, "data type")
    if case["what"] == "flat":
        ctx.check((np.abs(got.astype(int) - a[0, 0].astype(int)) <= 1).all(), "a flat image of %r became %r" % (a[0, 0].tolist(), got.tolist()))
    elif case["what"] == "same":
        ctx.equal_arrays(got, a, "image of the same size")
    else:
        for ax in (0, 1):
            m = np.ascontiguousarray(np.flip(a, ax))
            ctx.check((np.abs(np.flip(iu.resize_image(m, my, mx), ax).astype(int) - got.astype(int)) <= 2).all(), "mirrored along axis %d" % ax)
        if not case["nb"]:
            # of single precision, without clipping and rounding, resizing is linear and treats both directions alike
            f = array_of(case["seed"] + 1, shape, "float32", "small")
            r = iu.resize_image(f, my, mx)
            ctx.equal(r.dtype, f.dtype, "data type")
            ctx.close_to(iu.resize_image(np.ascontiguousarray(f.T), mx, my).T, r, "transposed", rtol=0, atol=1e-3)
            ctx.close_to(iu.resize_image(np.float32(2) * f + np.float32(3), my, mx), 2 * r + 3, "scaled", rtol=0, atol=1e-3)
    ctx.nontrivial(my != case["ny"] and mx != case["nx"])


misc = fixed(ny=side(12, 300), nx=side(12, 300), nb=st.one_of(st.integers(1, 4), st.integers(5, 20)), seed=seeds(), scale=st.sampled_from([1, 2, 3, 0.5, 4]), vals=st.lists(st.integers(0, 255), min_size=20, max_size=20), dtype=st.sampled_from([None, "uint8", "uint16", "float32"]))


@sub(P, "helpers", misc, quick=300, rule="more rows or columns than one, not square")
def helpers(case, ctx):
    """flattening and unflattening undo each other, uniform images are uniform, pixel grids count columns then rows, sizes are rows, columns, bands"""
    from resippy.utils.image_utils import image_utils as iu
    ny, nx, nb = case["ny"], case["nx"], case["nb"]
    a = array_of(case["seed"], (ny, nx), "float64")
    f = iu.flatten_image_band(a)
    ctx.equal_arrays(f, [a[i, j] for i in range(ny) for j in range(nx)], "flattened band")
    ctx.equal_arrays(iu.unflatten_image_band(f, nx, ny), a, "unflattened band")
    ctx.equal(iu.get_image_ny_nx_nbands(a), (ny, nx, 1), "size of a band")
    ctx.check(iu.is_grayscale(a), "a band is grayscale")
    kw = {"dtype": np.dtype(case["dtype"])} if case["dtype"] else {}
    u = iu.create_uniform_image_data(nx, ny, nb, case["vals"][0], **kw)
    ctx.equal(u.shape, (ny, nx, nb), "shape of a uniform image")
    ctx.equal(u.dtype, np.dtype(case["dtype"] or "uint8"), "data type of a uniform image")
    ctx.check((u == case["vals"][0]).all(), "uniform image")
    ctx.equal_arrays(iu.create_uniform_image_data(nx, ny, **kw), np.full((ny, nx, 1), 128, case["dtype"] or "uint8"), "uniform image unless told otherwise")
    u = iu.create_uniform_image_data(nx, ny, nb, case["vals"][:nb], **kw)
    for b in range(nb):
        ctx.check((u[:, :, b] == case["vals"][b]).all(), "band %d of a uniform image" % b)
    ctx.equal(iu.get_image_ny_nx_nbands(u), (ny, nx, nb), "size of an image")
    ctx.check(not iu.is_grayscale(u), "a cube is not grayscale")
    s = case["scale"]
    xs, ys = iu.create_pixel_grid(nx, ny, s)
    wx, wy = np.meshgrid(np.arange(int(np.ceil(nx * s))) / s, np.arange(int(np.ceil(ny * s))) / s)
    ctx.close_to(xs, wx, "x of the pixel grid")
    ctx.close_to(ys, wy, "y of the pixel grid")
    ctx.nontrivial(ny != nx)


again(P, "colormap", ("ny", "nx", "dtype", "ncol", "bins", "cont"), 60)
again(P, "normalize", ("ny", "nx", "dtype"), 40)
again(P, "detection", ("n", "ny", "nx", "cy", "cx"), 40)
again(P, "resize", ("ny", "nx", "nb", "my", "mx"), 40)
again(P, "helpers", ("ny", "nx"), 40)
