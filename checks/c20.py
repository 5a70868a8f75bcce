"""C20  Cutting images into chips."""
import os

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import array_of, fixed, laid, rng, seeds, side, uint

P = "C20"
results_stay(P)
assume_note(P, "chips are no larger than the image and overlap less than their size; chips kept inside the image (chipping outside is documented as unsupported)")

im = dict(ny=side(40, 500), nx=side(40, 500), nb=st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(5, 12)), seed=seeds(), dtype=st.sampled_from(["uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "float32", "float64"]),
          bands=st.one_of(st.none(), st.integers(0, 11), st.lists(st.integers(0, 11), min_size=1, max_size=6)), cy=uint(0, 10000), cx=uint(0, 10000))


def make(case):
    nb = case["nb"]
    shape = (case["ny"], case["nx"]) + ((nb,) if nb else ())
    a = array_of(case["seed"], shape, case["dtype"], "extreme")
    b = case["bands"]
    n = max(nb, 1)
    if isinstance(b, int):
        b = b % n
    elif b is not None:
        b = [k % n for k in b] if nb else [0]
    a3 = a.reshape(case["ny"], case["nx"], n)
    sel = list(range(n)) if b is None else [b] if isinstance(b, int) else b
    return a, b, a3, sel


def chip_size(n, k, frac):
    return 1 + (n - 1) * frac // 10000


def same_chips(ctx, chips, image, sel, uls, cy, cx, dtype):
    flat = len(sel) == 1
    ctx.equal(chips.shape, (len(uls), cy, cx) + (() if flat else (len(sel),)), "shape of the stack of chips")
    ctx.equal(chips.dtype, np.dtype(dtype), "data type of the chips")
    every = max(1, len(uls) // 300)
    for i in sorted({*range(0, len(uls), every), len(uls) - 1}):
        y, x = uls[i]
        want = image[y:y + cy, x:x + cx][:, :, sel]
        ctx.equal_arrays(chips[i], want[:, :, 0] if flat else want, "chip %d at row %d, column %d" % (i, y, x))


@sub(P, "whole_image", fixed(oy=st.one_of(uint(0, 10000), st.just(0)), ox=st.one_of(uint(0, 10000), st.just(0)), kw=st.booleans(), fit=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 5), st.integers(0, 5), st.sampled_from([0, 1, 2, -1, -2]), st.sampled_from([0, 1, 2, -1, -2]))), **im), quick=700, rule="at least two chips in each direction and an overlap")
def whole_image(case, ctx):
    """chips cut from a whole image cover it completely, in order, with the asked overlap, and are the image's pixels"""
    from resippy.utils.image_utils import image_chipper as ic
    cy, cx = chip_size(case["ny"], 1, case["cy"]), chip_size(case["nx"], 1, case["cx"])
    oy, ox = (cy * case["oy"]) // 10001, (cx * case["ox"]) // 10001
    if case["fit"] is not None:
        # a whole number of steps, give or take a pixel or two
        cy, cx = min(cy, 60), min(cx, 60)
        oy, ox = min(oy, cy - 1), min(ox, cx - 1)
        ky, kx, ry, rx = case["fit"]
        case = {**case, "ny": max(cy, cy + ky * (cy - oy) + ry), "nx": max(cx, cx + kx * (cx - ox) + rx)}
    a, b, a3, sel = make(case)

    def many(n, c, o):
        return 2 + (n - c) // (c - o)
    # as many chips as fit the time: less overlap first, larger chips then
    while many(case["ny"], cy, oy) * many(case["nx"], cx, ox) * cy * cx * max(1, case["nb"]) > 4e6 or many(case["ny"], cy, oy) * many(case["nx"], cx, ox) > 4000:
        if oy or ox:
            oy, ox = oy // 2, ox // 2
        elif (cy, cx) == (case["ny"], case["nx"]):
            break
        else:
            cy, cx = min(case["ny"], 2 * cy), min(case["nx"], 2 * cx)
    kw = dict(chip_ny_pixels=cy, chip_nx_pixels=cx)
    if case["kw"] or oy:
        kw["npix_overlap_y"] = oy
    if case["kw"] or ox:
        kw["npix_overlap_x"] = ox
    if b is not None or case["kw"]:
        kw["bands"] = b
    a = laid(a, case["seed"])
    a0 = a.copy()
    chips, uls = ic.chip_entire_image_to_memory(a, **kw)
    ctx.equal_arrays(a, a0, "the caller's image")

    def axis(n, c, o):
        s, out, k = c - o, [], 0
        while k < n - c:
            out.append(k)
            k += s
        return out + [n - c]
    ys, xs = axis(case["ny"], cy, oy), axis(case["nx"], cx, ox)
    ctx.equal([(int(y), int(x)) for y, x in uls], [(y, x) for y in ys for x in xs], "positions of the chips")
    same_chips(ctx, chips, a3, sel, [(int(y), int(x)) for y, x in uls], cy, cx, case["dtype"])
    seen = np.zeros((case["ny"], case["nx"]), int)
    for y, x in uls:
        seen[y:y + cy, x:x + cx] += 1
    ctx.check((seen > 0).all(), "pixels of the image in no chip: %d" % (seen == 0).sum())
    ctx.equal(ic.get_nchips(chips), len(uls), "number of chips")
    ctx.label("bands:" + type(b).__name__, "2d" if not case["nb"] else "3d", "chips:%d" % min(20, len(uls)))
    ctx.nontrivial(len(ys) > 1 and len(xs) > 1 and (oy or ox))


lists = fixed(at=st.lists(st.tuples(uint(-60, 100), uint(-60, 100)), min_size=1, max_size=12), more=st.one_of(st.just(0), st.just(0), st.just(0), uint(1, 300)), ints=st.sampled_from(["int64", "int32", "int16"]), how=st.sampled_from(["ul", "ul", "centre"]), form=st.sampled_from(["list", "array", "tuple"]),
              keep=st.booleans(), half=st.booleans(), **im)


@sub(P, "at_places", lists, quick=700, rule="a chip inside the image and one moved back into it")
def at_places(case, ctx):
    """chips at given places: in the given order, where asked, moved only as far as the image's edges demand"""
    from resippy.utils.image_utils import image_chipper as ic
    a, b, a3, sel = make(case)
    ny, nx = case["ny"], case["nx"]
    cy, cx = chip_size(ny, 1, case["cy"]), chip_size(nx, 1, case["cx"])
    at = [(t[0], t[1]) for t in case["at"]]
    at = at + [(int(v), int(w)) for v, w in zip(*rng(case["seed"] + 1).integers(-60, 560, (2, case["more"])))]
    while len(at) > 12 and len(at) * cy * cx * max(1, case["nb"]) > 4e6:
        at = at[:len(at) // 2]
    Y, X = [t[0] for t in at], [t[1] for t in at]
    keep = case["keep"]
    kw = dict(chip_ny_pixels=cy, chip_nx_pixels=cx)
    if b is not None:
        kw["bands"] = b
    if not keep and case["how"] == "ul":
        # all inside: nothing to move either way
        Y, X = [y % (ny - cy + 1) for y in Y], [x % (nx - cx + 1) for x in X]
        kw["keep_within_image_bounds"] = False
    form = {"list": list, "array": lambda v: np.array(v).astype(case["ints"]) if case["how"] == "ul" else np.array(v), "tuple": tuple}[case["form"]]

    def clip(v, n, c):
        return min(max(v, 0), n - c)
    if case["how"] == "ul":
        y_in, x_in = form(Y), form(X)
        chips, uls = ic.chip_images_by_pixel_upper_lefts(a, y_in, x_in, **kw)
        want = [[(clip(y, ny, cy), clip(x, nx, cx))] for y, x in zip(Y, X)]
    else:
        h = 0.5 if case["half"] else 0
        y_in, x_in = form([y + h for y in Y]), form([x + h for x in X])
        chips, uls = ic.chip_images_by_pixel_centers(a, y_in, x_in, **kw)

        def around(v, n, c):
            # the upper left is a whole pixel: where half the chip is not, either neighbour is as close
            e = v + h - c / 2.0
            return {clip(int(np.floor(e)), n, c), clip(int(np.ceil(e)), n, c)}
        want = [[(p, r) for p in around(y, ny, cy) for r in around(x, nx, cx)] for y, x in zip(Y, X)]
    if case["form"] != "tuple":
        ctx.equal([float(v) for v in y_in], [float(v) for v in (Y if case["how"] == "ul" else np.array(Y) + h)], "the caller's list of rows")
    got = [(int(y), int(x)) for y, x in uls]
    ctx.equal(len(got), len(want), "number of chips")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g in w, "chip %d is at %r, expected %r" % (i, g, w))
    if case["how"] != "ul":
        # whichever of the two it is: chips about places a whole number of pixels apart lie as far apart
        for k, V, n, c in ((0, Y, ny, cy), (1, X, nx, cx)):
            d = {g[k] - v for g, v in zip(got, V) if 0 <= v + h - c / 2.0 and np.ceil(v + h - c / 2.0) <= n - c}
            ctx.check(len(d) <= 1, "chips about centres along axis %d: upper left minus centre is %r" % (k, sorted(d)))
    same_chips(ctx, chips, a3, sel, got, cy, cx, case["dtype"])
    ctx.label(case["how"], case["form"])
    moved = [0 <= y <= ny - cy and 0 <= x <= nx - cx for y, x in zip(Y, X)]
    ctx.nontrivial(any(moved) and (not all(moved) or not keep))


wr = fixed(n=side(12, 120), ny=side(12, 90), nx=side(12, 90), nb=st.sampled_from([0, 3, 4, 2]), seed=seeds(), names=st.sampled_from(["dir", "base", "list"]), alpha=st.sampled_from([None, True, False]),
           fmt=st.sampled_from(["png", ".png", "tif", None]), size=st.one_of(st.none(), st.tuples(uint(1, 20), uint(1, 20))), dir=st.sampled_from(["chips", "a b", "x.y", "z[1]"]))


@sub(P, "write", wr, quick=400, rule="at least two chips of colour or grey pixels")
def write(case, ctx):
    """chips written to disk: one file each, named as asked, holding the chip's pixels"""
    import imageio.v2 as imageio
    from PIL import Image
    from resippy.utils.image_utils import image_chipper as ic
    n, ny, nx, nb = case["n"], case["ny"], case["nx"], case["nb"]
    chips = array_of(case["seed"], (n, ny, nx) + ((nb,) if nb else ()), "uint8", "extreme")
    d = os.path.dirname(ctx.path(case["dir"], "x"))
    kw = {}
    if case["names"] == "base":
        kw["base_chip_fname"] = "c"
    elif case["names"] == "list":
        kw["fnames_list"] = ["name%d" % (i * 7 % 1009) for i in range(n)]
    if case["alpha"] is not None:
        kw["remove_alpha"] = case["alpha"]
    if case["fmt"]:
        kw["output_format"] = case["fmt"]
    if case["size"]:
        kw["output_chip_ny"], kw["output_chip_nx"] = case["size"]
    chips = laid(chips, case["seed"])
    c0 = chips.copy()
    ic.write_chips_to_disk(chips, d, **kw)
    ctx.equal_arrays(chips, c0, "the caller's chips")
    ext = "." + (case["fmt"] or "png").strip(".")
    base = "c" if case["names"] == "base" else case["dir"]
    names = [(kw["fnames_list"][i] if "fnames_list" in kw else "%s_%08d" % (base, i)) + ext for i in range(n)]
    ctx.equal(sorted(os.listdir(d)), sorted(names), "files written")
    for i, f in enumerate(names):
        want = chips[i]
        if case["size"]:
            want = np.array(Image.fromarray(want).resize(case["size"][::-1]))
        if nb == 4 and case["alpha"] is not False:
            want = want[:, :, :3]
        got = imageio.imread(os.path.join(d, f))
        ctx.equal_arrays(np.asarray(got).reshape(want.shape) if got.size == want.size and got.shape[:2] == want.shape[:2] else got, want, "file of chip %d" % i)
    ctx.label("bands:%d" % nb, case["names"], "resized" if case["size"] else "as is")
    ctx.nontrivial(n > 1)


again(P, "whole_image", ("ny", "nx", "nb", "dtype", "cy", "cx"), 60)
again(P, "at_places", ("ny", "nx", "nb", "dtype", "cy", "cx"), 60)
again(P, "write", (), 40, same_files=False)
