"""C28  Mutual information of images, and locations in point-mask images."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, logq, q, rng, seeds, side

P = "C28"
results_stay(P)
assume_note(P, "mutual information: finite grey values; where it is computed exactly they keep away from the edges of the bins")
DT = ["uint8", "uint16", "int16", "int32", "float32", "float64"]

pair = fixed(nx=side(30, 300), ny=side(30, 300), nbins=st.sampled_from([2, 3, 7, 16, 50, 100, 150, 256, 300]), seed=seeds(), dt1=st.sampled_from(DT), dt2=st.sampled_from(DT), rel=st.sampled_from(["same", "noise", "none", "map", "const"]),
             default=st.booleans(), scale=logq(1e-3, 1e3), off=q(-1000, 1000))


def quantised(g, bins, dt, nbins, const=False):
    """grey values that fall well inside the given bins of their range"""
    i = np.dtype(dt).kind in "iu"
    if const:
        return np.full(bins.shape, 7 if i else -3.25, dt)
    u = g.uniform(0.15, 0.85, bins.shape)
    if i:
        info = np.iinfo(dt)
        step = 2 if nbins > 50 and dt == "uint8" else max(2, (int(info.max) - int(info.min)) // nbins // int(g.integers(1, 4)))
        if dt == "uint8" and nbins == 100:
            lo, width = 3, 200
            vals = np.asarray(lo + bins * 2 + 1)     # middle of bins two wide
        else:
            lo = int(g.integers(info.min, int(info.max) - step * nbins + 1)) if int(info.max) - step * nbins > info.min else int(info.min)
            width = step * nbins
            vals = lo + bins * step + np.clip((u * step).astype(int), 1, max(1, step - 1))
        vals = vals.astype("int64")
        flat = vals.ravel()
        flat[0], flat[-1] = lo, lo + width
        return flat.reshape(bins.shape).astype(dt)
    lo, step = g.uniform(-100, 100), 10.0 ** g.uniform(-1, 1)
    vals = lo + (bins + u) * step
    flat = vals.ravel()
    flat[0], flat[-1] = lo, lo + nbins * step
    return flat.reshape(bins.shape).astype(dt)


def reference(b1, b2):
    from collections import Counter
    j, h1, h2 = Counter(zip(b1.tolist(), b2.tolist())), Counter(b1.tolist()), Counter(b2.tolist())
    return math.fsum(n * math.log(n / (h1[a] * h2[b])) for (a, b), n in j.items())


@sub(P, "mutual_information", pair, quick=300, rule="images that are related but not the same")
def mutual_information(case, ctx):
    """the similarity of two images is the sum over their joint histogram, symmetric, unchanged by a common rearrangement of pixels or a linear change of grey values, and nowhere larger than that of an image with itself"""
    from resippy.utils.image_utils.image_registration import MMI
    c = case
    g = rng(c["seed"])
    n = c["nx"] * c["ny"]
    nb = 100 if c["default"] else c["nbins"]
    shp = (c["ny"], c["nx"])
    if nb > 100:
        # more bins than an 8 bit image has grey values
        c = {**c, "dt1": c["dt1"].replace("uint8", "int32"), "dt2": c["dt2"].replace("uint8", "int32")}
    b1 = g.integers(0, nb, shp)
    b2 = {"same": b1, "noise": np.clip(b1 + g.integers(-1, 2, shp), 0, nb - 1), "none": g.integers(0, nb, shp), "map": (nb - 1 - b1) // 2, "const": b1 * 0}[c["rel"]].copy()
    if n < 2:
        b1, b2 = b1 * 0, b2 * 0
    i1 = quantised(g, b1, c["dt1"], nb, n < 2)
    i2 = quantised(g, b2, c["dt2"], nb, n < 2 or c["rel"] == "const")
    f1, f2 = b1.ravel().copy(), b2.ravel().copy()
    if n >= 2:
        f1[0], f1[-1] = 0, nb - 1
        if c["rel"] != "const":
            f2[0], f2[-1] = 0, nb - 1
    args = () if c["default"] else (c["nbins"],)
    i1, i2 = laid(i1, c["seed"]), laid(i2, c["seed"] // 7)
    k1, k2 = i1.copy(), i2.copy()
    got = MMI.image_mmi(i1, i2, *args)
    ctx.equal_arrays(i1, k1, "the caller's first image")
    ctx.equal_arrays(i2, k2, "the caller's second image")
    want = reference(f1, f2)
    t = 1e-9 * (1 + n * math.log(n + 1))
    ctx.check(abs(float(got) - want) <= t, "mutual information %r, expected %r" % (got, want))
    ctx.check(abs(MMI.image_mmi(i2, i1, *args) - got) <= t, "the other way round: %r" % MMI.image_mmi(i2, i1, *args))
    self1 = MMI.image_mmi(i1, i1, *args)
    ctx.check(abs(self1 - reference(f1, f1)) <= t and got <= self1 + t, "with itself: %r" % self1)
    p = g.permutation(n)
    pm = MMI.image_mmi(i1.ravel()[p].reshape(shp[::-1]), i2.ravel()[p].reshape(shp[::-1]), *args)
    ctx.check(abs(pm - got) <= t, "pixels rearranged: %r" % pm)
    lin = MMI.image_mmi(i1.astype(float) * c["scale"] + c["off"], i2, *args)
    if n < 2 or (np.ptp(i1.astype(float)) * c["scale"] > 1e-6 * (np.abs(i1.astype(float)).max() * c["scale"] + abs(c["off"]))):
        ctx.check(abs(lin - got) <= t, "grey values scaled and shifted: %r" % lin)
    ctx.label(c["rel"], c["dt1"])
    ctx.nontrivial(c["rel"] in ("noise", "map") and n > 20)


anyv = fixed(nx=side(12, 400), ny=side(12, 400), nbins=st.integers(1, 120), seed=seeds(), dt=st.sampled_from(DT), spread=st.sampled_from([1, 3, 60, 200]), off=st.sampled_from([0, 1, 100]), step=st.sampled_from([1.0, 0.1, 0.3]))


@sub(P, "any_images", anyv, quick=300, rule="images with several grey values")
def any_images(case, ctx):
    """for any two finite images, also with values on the edges of bins, the similarity is finite, at least that of unrelated images, at most that with itself, and symmetric"""
    from resippy.utils.image_utils.image_registration import MMI
    c = case
    g = rng(c["seed"])
    n = c["nx"] * c["ny"]
    st_ = 1 if np.dtype(c["dt"]).kind in "iu" else c["step"]
    a, b = ((g.integers(0, c["spread"] + 1, (c["ny"], c["nx"])) * st_ + (c["off"] if c["spread"] + c["off"] < 255 else 0)).astype(c["dt"]) for _ in range(2))
    a, b = laid(a, c["seed"]), laid(b, c["seed"] // 7)
    v = float(MMI.image_mmi(a, b, c["nbins"]))
    s = float(MMI.image_mmi(a, a, c["nbins"]))
    t = 1e-9 * (1 + n * math.log(n + 1))
    ctx.check(math.isfinite(v) and math.isfinite(s), "mutual information %r, with itself %r" % (v, s))
    ctx.check(-n * math.log(n) - t <= v <= s + t <= 2 * t + 0.0 + max(0.0, s), "mutual information %r, with itself %r" % (v, s))
    ctx.check(s <= t, "an image with itself: %r" % s)
    w = float(MMI.image_mmi(b, a, c["nbins"]))
    ctx.check(abs(w - v) <= t, "the other way round: %r" % w)
    ctx.nontrivial(c["spread"] > 1 and n > 4)


COLORS = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 0, 0), (255, 255, 255), (1, 0, 0), (0, 1, 255), (171, 205, 239), (16, 16, 16), (255, 0, 1)]
mask = fixed(nx=side(14, 300), ny=side(14, 300), seed=seeds(), colors=st.lists(st.sampled_from(COLORS), min_size=1, max_size=5, unique=True), asked=st.lists(st.sampled_from(COLORS), min_size=1, max_size=5, unique=True),
             fill=q(0, 1), alpha=st.sampled_from(["none", "full", "zero", "random"]), dtype=st.sampled_from(["uint8", "uint8", "int32", "float64"]), upper=st.booleans(), background=st.sampled_from([(0, 0, 0), (0, 0, 0), (255, 255, 255)]))


@sub(P, "point_masks", mask, quick=300, rule="several colours, of which some are in the image")
def point_masks(case, ctx):
    """the locations of a colour are exactly the pixels that have it, by label; without colours, all pixels that are not black; transparency does not matter"""
    from resippy.utils.image_utils.image_mask_utils import rgb_image_point_mask_to_pixel_locations as locate
    c = case
    g = rng(c["seed"])
    im = np.zeros((c["ny"], c["nx"], 3), c["dtype"])
    im[:] = c["background"]
    on = g.random(im.shape[:2]) < c["fill"]
    im[on] = np.array(c["colors"])[g.integers(0, len(c["colors"]), int(on.sum()))]
    rgb = im.copy()
    if c["alpha"] != "none":
        al = {"full": np.full(im.shape[:2], 255), "zero": np.zeros(im.shape[:2]), "random": g.integers(0, 256, im.shape[:2])}[c["alpha"]]
        im = np.dstack([im, al.astype(c["dtype"])])
    im = laid(im, c["seed"])
    keep = im.copy()

    def places(m):
        return [(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if m[i, j]]
    ys, xs = locate(im)
    ctx.equal(sorted(zip(np.asarray(ys).tolist(), np.asarray(xs).tolist())), places((rgb != 0).any(axis=2)), "pixels that are not black")
    fmt = "#%02X%02X%02X" if c["upper"] else "#%02x%02x%02x"
    d = {fmt % tuple(k): "label %d" % i for i, k in enumerate(c["asked"])}
    out = locate(im, dict(d))
    ctx.equal(set(out), set(d.values()), "labels")
    for i, k in enumerate(c["asked"]):
        ys, xs = out["label %d" % i]
        ctx.equal(sorted(zip(np.asarray(ys).tolist(), np.asarray(xs).tolist())), places((rgb == np.array(k)).all(axis=2)), "pixels of colour %r" % (k,))
    ctx.equal_arrays(im, keep, "the caller's image")
    ctx.nontrivial(len(c["asked"]) > 1 and bool(set(map(tuple, c["asked"])) & set(map(tuple, c["colors"]))) and on.any())


again(P, "mutual_information", ("nx", "ny", "dt1", "dt2"), 40)
again(P, "any_images", ("nx", "ny", "nbins"), 40)
again(P, "point_masks", ("nx", "ny", "asked"), 40)
