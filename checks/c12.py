"""C12  Which places are hidden from the camera by terrain."""
import numpy as np
from hypothesis import strategies as st

from harness import cams, dems, scenes
from harness.core import assume_note, results_stay, sub
from harness.gens import fixed, laid, logq, q, rng, seeds
from checks.c01 import CRS_NAMES
from checks.c11 import dem_in, foot

P = "C12"
results_stay(P)
assume_note(P, "only clear cases are judged: hidden means terrain above the line of sight over at least 1.1 sampling distances, visible "
               "means terrain below it everywhere; obstacles narrower than the sampling distance may be missed")

case_o = fixed(cam=st.one_of(cams.frame_camera_case(), cams.frame_camera_case(), cams.rpc_case()), surf=dems.surface_case().flatmap(lambda d: st.sampled_from(["ridge", "ridge", "waves", "waves", "cliff", "cliff", "plane", "flat"]).map(
                     lambda k: {**d, "kind": k})), rel=q(0.1, 1),
               n=st.integers(1, 12), pseed=seeds(), steps=st.one_of(st.integers(3, 60), q(2.1, 8), q(2.1, 60)), shape=st.sampled_from(["1d", "2d"]), places=st.sampled_from(["terrain", "terrain", "heights"]),
               pix=st.sampled_from(["float", "int"]), dem_crs=st.sampled_from(["native"] * 4 + CRS_NAMES),
               source=st.sampled_from(["array", "array", "separate_bands"]), sharp=logq(1, 12))


@sub(P, "obstruction", case_o, quick=900, rule="both hidden and visible places judged clear, or at least one hidden")
def obstruction(case, ctx):
    """hidden if terrain rises above the sight for longer than the sampling distance, visible if it stays below throughout"""
    c, S, sep = world_of(case)
    img = image_of(c, sep, ctx)
    hidden, visible = ask_and_judge(case, ctx, c, S, sep, img)
    ctx.label(c["kind"], S.c["kind"], "hidden" if hidden else "none_hidden", "visible" if visible else "none_visible", "per_band" if sep else "coregistered", case["dem_crs"])
    ctx.nontrivial(hidden > 0)


def world_of(case):
    c = dict(case["cam"])
    S = scenes.surface(c, case["surf"], case["rel"])
    if c["kind"] != "rpc":
        # short steep relief: hills that can hide something
        S.size = S.size / case["sharp"] / 2
    return c, S, case["source"] == "separate_bands"


def image_of(c, sep, ctx):
    return scenes.make_image({"nb": 3}, {"nx": 1, "ny": 1, **c}, np.zeros((1, 1, 3), "uint8"), ctx, "separate_bands" if sep else "array")


def ask_and_judge(case, ctx, c, S, sep, img):
    from resippy.photogrammetry import ortho_tools
    band = case["pseed"] % 3 if sep else 0
    cb = scenes.band_case(c, band) if sep else c
    ref = cams.reference(cb)
    native = cams.proj_of(c)
    dem = dem_in(case["dem_crs"], S, c)
    g = rng(case["pseed"])
    m = case["n"] * (2 if case["shape"] == "2d" else 1)
    shp = (2, case["n"]) if case["shape"] == "2d" else (m,)
    lo, hi = S.bounds()
    if c["kind"] == "rpc":
        x = c["samp_off"] + g.uniform(-0.6, 0.6, m) * c["samp_scale"]
        y = c["line_off"] + g.uniform(-0.6, 0.6, m) * c["line_scale"]
    else:
        # around the relief, which lies where the middle of the image looks
        k = min(1.0, 2.0 / case["sharp"])
        x, y = c["nx"] * (0.5 + k * g.uniform(-0.5, 0.5, m)), c["ny"] * (0.5 + k * g.uniform(-0.5, 0.5, m))
    if case["pix"] == "int":
        x, y = np.round(x), np.round(y)
    z = lo + g.uniform(0, 1, m) * (hi - lo) + (0 if g.random() < 0.7 else 0.3 * (hi - lo))
    X, Y = scenes.invert(ref, c, S, x, y, z)
    kw = {}
    if case["places"] == "terrain":
        # places on the terrain, and the pixels that look their way
        z = S(X, Y)
        x, y = ref.project(X, Y, z)
        xq, yq = x, y
    else:
        xq, yq = (x.astype(int), y.astype(int)) if case["pix"] == "int" else (x, y)
        kw["alts"] = z.reshape(shp).copy()
    top = hi + 0.001
    tx, ty = scenes.invert(ref, c, S, x, y, np.zeros(m) + top)
    L = np.hypot((tx - X) * S.per_x, (ty - Y) * S.per_y)
    res = max(float(L.max()) / case["steps"], 1e-3)
    kw["dem_resolution"] = res
    if sep:
        kw["band"] = band
    elif case["pseed"] % 2:
        kw["band"] = 0
    Xq, Yq, pxq, pyq = (laid(a.reshape(shp), case["pseed"] // 7 ** i) for i, a in enumerate((X, Y, xq, yq)))
    got = ortho_tools.are_pixels_obstructed_by_dem(img, pxq, pyq, Xq, Yq, dem, **kw)
    ctx.equal(np.shape(got), shp, "shape of the result")
    ctx.equal_arrays(Xq.ravel(), X, "the caller's longitudes")
    ctx.equal_arrays(Yq.ravel(), Y, "the caller's latitudes")
    got = np.ravel(got)
    ctx.check(np.isin(got, [0, 1]).all(), "the result is not a mask: %r" % got)
    e = foot(ref, c, tx, ty, np.zeros(m) + top, 0.01)
    hidden = visible = 0
    for i in range(m):
        t = np.linspace(0, 1, 2001)
        zz = S(X[i] + (tx[i] - X[i]) * t, Y[i] + (ty[i] - Y[i]) * t)
        ray = z[i] + (top - z[i]) * t
        dl = L[i] * (t[1] - t[0])
        slope = np.abs(np.diff(zz)).max() / dl if dl > 0 else 0.0
        noise = 1.5 * slope * e[i] * S.per_x * t + 1e-6 + 1e-9 * abs(top)
        if case["dem_crs"] != "native":
            noise = noise + slope * 1e-5
        if c["kind"] == "rpc":
            # sights of rational models bend a little
            bx, by = scenes.invert(ref, c, S, np.zeros(3) + x[i], np.zeros(3) + y[i], z[i] + (top - z[i]) * np.array([.25, .5, .75]))
            bend = np.hypot((bx - (X[i] + (tx[i] - X[i]) * np.array([.25, .5, .75]))) * S.per_x, (by - (Y[i] + (ty[i] - Y[i]) * np.array([.25, .5, .75]))) * S.per_y).max()
            noise = noise + 2 * slope * bend
        excess = zz - ray
        inner = t > 0.45 * min(res / L.max(), 1.0)
        run = longest(excess[:-1] > noise[:-1] + 1e-3) * dl
        what = "place %d (%g terrain samples of %g m along a sight of %g m)" % (i, case["steps"], res, L[i])
        if run >= 1.1 * res + 2 * dl:
            hidden += 1
            ctx.check(got[i] == 1, what + " is behind terrain for %g m, but is reported visible" % run)
        elif np.all(excess[inner] < -noise[inner]) and np.all(excess <= noise):
            visible += 1
            ctx.check(got[i] == 0, what + " has a clear sight (terrain at least %g m below it), but is reported hidden" % -(excess[inner].max() if inner.any() else 0))
    return hidden, visible


sub(P, "many_places", case_o.map(lambda k: {**k, "n": 40 + 37 * k["n"], "steps": k["steps"] * 2}), quick=16, rule="both hidden and visible places judged clear, or at least one hidden")(obstruction)

turn = fixed(who=st.integers(0, 1), surf=dems.surface_case().map(lambda d: {**d, "kind": {"flat": "ridge", "plane": "waves"}.get(d["kind"], d["kind"])}), rel=q(0.1, 1), n=st.integers(1, 6), pseed=seeds(), steps=st.one_of(st.integers(3, 40), q(2.1, 8), q(2.1, 40)),
             shape=st.sampled_from(["1d", "2d"]), places=st.sampled_from(["terrain", "terrain", "heights"]), pix=st.sampled_from(["float", "int"]), dem_crs=st.sampled_from(["native"] * 4 + CRS_NAMES), sharp=logq(1, 12))


@sub(P, "conversations", fixed(cases=st.tuples(case_o, case_o), turns=st.lists(turn, min_size=2, max_size=8)), quick=120, rule="two or more questions with something hidden")
def conversations(case, ctx):
    """two images, asked in turn about different places on different terrains: no answer depends on what was asked before"""
    imgs = []
    for k in case["cases"]:
        c, _, sep = world_of(k)
        imgs.append((c, sep, image_of(c, sep, ctx)))
    hits = 0
    for t in case["turns"]:
        c, sep, img = imgs[t["who"]]
        _, S, _ = world_of({**t, "cam": c, "source": ""})
        hits += ask_and_judge(t, ctx, c, S, sep, img)[0] > 0
    ctx.nontrivial(hits > 1)


def longest(mask):
    best = cur = 0
    for v in mask:
        cur = cur + 1 if v else 0
        best = max(best, cur)
    return best
