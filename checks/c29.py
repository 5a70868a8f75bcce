"""C29  Scores of image chips."""
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, laid, q, rng, seeds, side, uint

P = "C29"
results_stay(P)
assume_note(P, "keras is not installed: a stand-in converts images to arrays as keras does, and models are recording stand-ins; RGB or RGBA images of bytes; chips no larger than the image, with more than one grey value where they are stretched")


def module():
    if "keras" not in sys.modules:
        k, p, i, m = (types.ModuleType(n) for n in ("keras", "keras.preprocessing", "keras.preprocessing.image", "keras.models"))
        i.img_to_array = lambda im: np.array(im, "float32") if np.ndim(im) == 3 else np.array(im, "float32")[:, :, None]
        m.Model = object
        k.preprocessing, k.models, p.image = p, m, i
        sys.modules.update({"keras": k, "keras.preprocessing": p, "keras.preprocessing.image": i, "keras.models": m})
    from resippy.image_recognition.neural_net_model_scoring import keras_image_scoring
    return keras_image_scoring


class Model:
    def __init__(self, n, seed):
        self.w = rng(seed).normal(0, 1, (n, 3))
        self.seen = []

    def predict(self, x):
        x = np.array(x, float)
        self.seen.append(x)
        f = np.array([x.mean(), x[0, 0, 0].mean(), x[0, -1, 0, 0]])
        return (self.w @ f)[None].astype("float32")


class Ledger:
    def __init__(self):
        self.got = []

    def set_status(self, text, percent):
        self.got.append(percent)


def corners(n, size, step):
    return sorted({min(k, n - size) for k in range(0, n, step)})


case_s = fixed(whole=st.sampled_from(["no"] * 6 + ["both", "both", "y", "x"]), ny=side(30, 200, 2), nx=side(30, 200, 2), alpha=st.booleans(), cy=q(0.05, 1), cx=q(0.05, 1), oy=q(0, 0.85), ox=q(0, 0.85), default=st.booleans(), target=st.sampled_from(["same", "same", "other"]), ty=st.integers(1, 24), tx=st.integers(1, 24),
               norm=st.sampled_from(["default", "divide_by_255", "min_max_per_chip", "none"]), n=st.integers(2, 5), find=st.one_of(st.none(), st.integers(0, 4)), ledger=st.booleans(), seed=seeds(), gx=q(-4, 4), gy=q(-4, 4))


@sub(P, "scores", case_s, quick=400, rule="several chips whose order matters, with a size of their own for the model")
def scores(case, ctx):
    """each chip is scored once by the model on its own pixels, resized and normalised as asked; scores and places are in the same order and cover the image"""
    m = module()
    c = case
    ny, nx = c["ny"], c["nx"]
    cy, cx = max(1, int(c["cy"] * ny)), max(1, int(c["cx"] * nx))
    if c["whole"] in ("both", "y"):
        cy = ny
    if c["whole"] in ("both", "x"):
        cx = nx
    g = rng(c["seed"])
    if c["target"] == "same":
        im = g.integers(0, 256, (ny, nx, 3)).astype("uint8")
        ty, tx = cy, cx
    else:
        # a slope, which any interpolation reproduces to about a pixel
        jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
        gx, gy = c["gx"] * min(1.0, 30.0 / nx), c["gy"] * min(1.0, 30.0 / ny)
        base = 127 + gx * (jj - nx / 2) + gy * (ii - ny / 2)
        im = np.clip(np.round(np.stack([base, 255 - base, base], axis=2)), 0, 255).astype("uint8")
        ty, tx = c["ty"], c["tx"]
    norm = c["norm"]
    if norm == "min_max_per_chip" and (c["target"] == "other" or cy * cx < 4):
        norm = "divide_by_255"
    arg = np.dstack([im, g.integers(0, 256, (ny, nx)).astype("uint8")]) if c["alpha"] else im.copy()
    arg = laid(arg, c["seed"])
    keep = arg.copy()
    model = Model(c["n"], c["seed"] + 1)
    labels = [str(w) for w in g.permutation([["tree", "car", "Road", "house", "Animal"], ["car", "cars", "Car", "scar", "car 2"]][c["seed"] % 2])[:c["n"]]]
    led = Ledger() if c["ledger"] else None
    kw = {}
    oy, ox = 0.5, 0.5
    if not c["default"]:
        oy, ox = c["oy"], c["ox"]
        kw.update(image_overlap_x_percent=ox, image_overlap_y_percent=oy)
    if norm != "default":
        kw["normalize_method"] = norm
    if c["find"] is not None:
        kw.update(labels=labels, thing_to_find=labels[c["find"] % c["n"]])
    if led is not None:
        kw["atk_chain_ledger"] = led
    got, locs = m.chip_and_score_image(arg, model, cx, cy, target_chip_size_x=tx, target_chip_size_y=ty, **kw)
    ctx.equal_arrays(arg, keep, "the caller's image")
    want = [(y, x) for y in corners(ny, cy, cy - int(cy * oy)) for x in corners(nx, cx, cx - int(cx * ox))]
    ctx.equal([(int(y), int(x)) for y, x in locs], want, "places of the chips")
    ctx.equal(len(model.seen), len(want), "chips scored")
    answers = []
    for (y, x), seen in zip(want, model.seen):
        chip = im[y:y + cy, x:x + cx].astype(float)
        ctx.equal(seen.shape, (1, ty, tx, 3), "shape given to the model")
        if c["target"] == "other":
            yy, xx = (np.arange(ty) + 0.5) * cy / ty - 0.5, (np.arange(tx) + 0.5) * cx / tx - 0.5
            base = 127 + gx * (x + xx[None, :] - nx / 2) + gy * (y + yy[:, None] - ny / 2)
            chip = np.stack([base, 255 - base, base], axis=2)
            tol = (abs(gx) * max(1, cx / tx) + abs(gy) * max(1, cy / ty)) + 1.5
        else:
            tol = 1e-3
        scale = 1.0
        if norm in ("default", "divide_by_255"):
            scale = 255.0
        elif norm == "min_max_per_chip":
            if chip.max() == chip.min():
                continue
            scale = chip.max() - chip.min()
            chip = chip - chip.min()
        ctx.close_to(seen[0], chip / scale, "chip at row %d, column %d" % (y, x), rtol=0, atol=tol / scale)
    for s in model.seen:
        answers.append(Model(c["n"], c["seed"] + 1).predict(s)[0])
    answers = np.array(answers)
    if c["find"] is not None:
        answers = answers[:, c["find"] % c["n"]]
        ctx.equal(np.shape(got), (len(want),), "shape of the scores of the thing to find")
    ctx.close_to(np.reshape(got, answers.shape), answers, "scores", rtol=1e-6, atol=1e-6)
    if led is not None:
        ctx.check(all(a <= b for a, b in zip(led.got, led.got[1:])) and all(0 <= v <= 100 for v in led.got), "progress %r" % (led.got,))
    ctx.label(norm, c["target"], "chips:%d" % min(len(want), 9))
    ctx.nontrivial(len(want) > 2 and cy != cx)


again(P, "scores", ("ny", "nx", "alpha", "cy", "cx", "norm", "n"), 40)
