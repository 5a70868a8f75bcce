"""C16  Covariance equalisation and principal components."""
import numpy as np
from hypothesis import strategies as st

from harness import cubes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds
from harness.cubes import kept, mean_cov, plain

P = "C16"
results_stay(P)
assume_note(P, "covariances have full rank; the equalising transformation is the one with symmetric roots (the code's reference, Q = I); "
               "principal components are determined up to their sign; scenes with hundreds of pixels "
               "have ten pixels per band or more (for fewer, scikit-learn may approximate the components)")

two = fixed(a=cubes.cube_case, b=cubes.cube_case)


def root(c, p):
    w, v = np.linalg.eigh(c)
    return (v * w ** p) @ v.T


@sub(P, "equalise", two, quick=600, rule="masks, or scenes of different size")
def equalise(case, ctx):
    """the equalised scene has the covariance of the scene to match"""
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    ca, cb = case["a"], {**case["b"], "nb": case["a"]["nb"]}
    if ca["dtype"] not in ("float32", "float64"):
        ca = {**ca, "dtype": "float64"}
    if cb["dtype"] not in ("float32", "float64"):
        cb = {**cb, "dtype": "float64"}
    a, m = cubes.make(ca)
    b, k = cubes.make(cb)
    nb = a.shape[2]
    # scenes without their mean
    a = np.asarray(a - mean_cov(kept(a, m))[0], a.dtype)
    b = np.asarray(b - mean_cov(kept(b, k))[0], b.dtype)
    c1, c2 = mean_cov(kept(a, m))[1], mean_cov(kept(b, k))[1]
    if max(np.linalg.cond(c1), np.linalg.cond(c2)) > 1e5:
        ctx.label("ill-conditioned, not judged")
        return
    L = root(c2, 0.5) @ root(c1, -0.5)
    scale = np.abs(L).max()
    fa, fb = np.array(a.reshape(-1, nb)), np.array(b.reshape(-1, nb))
    fm, fk = None if m is None else np.ravel(m), None if k is None else np.ravel(k)
    masks2 = [] if m is None and k is None else [m, k]
    masks1 = [] if m is None and k is None else [fm, fk]
    a0, b0 = a.copy(), b.copy()
    r, rr = 1e-7, 1e-6
    if "float32" in (ca["dtype"], cb["dtype"]):
        # sums of single-precision values may be formed in single precision
        r = rr = 1e-5 + 4e-6 * max(np.linalg.cond(c1), np.linalg.cond(c2))
        if r > 0.02:
            ctx.label("ill-conditioned for single precision, not judged")
            return
    ctx.close_to(plain(s1.compute_cov_eq_linear_transform_matrix(fa, fb, *masks1)), L, "1d transformation", rtol=r, atol=r * scale)
    ctx.close_to(plain(s2.compute_cov_eq_linear_transform_matrix(a, b, *masks2)), L, "2d transformation", rtol=r, atol=r * scale)
    g1 = plain(s1.covariance_equalization_mean_centered(fa, fb, *masks1))
    g2 = plain(s2.covariance_equalization_mean_centered(a, b, *masks2))
    ctx.equal(g2.shape, a.shape, "shape of the 2d result")
    want = fa.astype(float) @ L.T
    top = np.abs(want).max()
    ctx.close_to(g1, want, "1d equalised scene", rtol=rr, atol=rr * top)
    ctx.close_to(g2, want.reshape(a.shape), "2d equalised scene", rtol=rr, atol=rr * top)
    ctx.close_to(mean_cov(kept(g2, m))[1], c2, "covariance of the equalised scene", rtol=10 * rr, atol=10 * rr * np.abs(c2).max())
    ctx.equal_arrays(a, a0, "the caller's scene")
    ctx.equal_arrays(b, b0, "the caller's scene to match")
    ctx.label("masks" if masks1 else "no masks")
    ctx.nontrivial(bool(masks1) or a.shape != b.shape)


pca_case = cubes.cube_case.flatmap(lambda c: fixed(k=st.integers(0, 6), whiten=st.booleans()).map(lambda d: {**c, **d}))


@sub(P, "pca", pca_case, quick=500, rule="fewer components than bands, or whitening")
def pca(case, ctx):
    """components are uncorrelated, in falling order of variance, and are projections on the covariance's eigenvectors"""
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make({**case, "mask": "none"})
    ny, nx, nb = a.shape
    mu, cov = mean_cov(kept(a, None))
    w, v = np.linalg.eigh(cov)
    w, v = w[::-1], v[:, ::-1]
    n = nb if case["k"] == 0 else min(case["k"], nb)
    kw = {} if case["k"] == 0 else {"n_components": n}
    if case["whiten"]:
        kw["whiten"] = True
    want = (kept(a, None) - mu) @ v[:, :n]
    if case["whiten"]:
        want = want / np.sqrt(w[:n])
    got = s2.compute_image_cube_pca(a.copy(), **kw)
    ctx.equal(got.shape, (ny, nx, n), "shape of the components")
    r = 1e-3 if case["dtype"] == "float32" else 1e-7
    big = (np.abs(mu).max() / np.sqrt(w[-1]) + 1)
    if r * big > 0.05:
        ctx.label("offset too large for the precision of the type, not judged")
        return
    top = np.abs(want).max()
    gc = got.reshape(-1, n).astype(float)
    cg = np.cov(gc.T).reshape(n, n)
    ctx.close_to(cg, np.diag(np.ones(n) if case["whiten"] else w[:n]), "covariance of the components", rtol=0.01 if r > 1e-5 else 1e-6,
                 atol=(1 if case["whiten"] else w[0]) * r * big)
    for i in range(n):
        gap = min([abs(w[i] - w[j]) for j in range(nb) if j != i]) / w[0]
        if gap < 1e-2:
            continue
        s = np.sign(gc[:, i] @ want[:, i])
        ctx.close_to(got[:, :, i] * s, want[:, i].reshape(ny, nx), "component %d" % i, rtol=10 * r, atol=10 * r * top * big / gap * 0.1 + 1e-9 * top)
    ctx.label(case["dtype"])
    ctx.nontrivial(n < nb or case["whiten"])


for name, how in (("large_", cubes.tall), ("many_bands_", cubes.deep)):
    sub(P, name + "equalise", fixed(a=cubes.cube_case.map(how), b=cubes.cube_case.map(how)), quick=20, rule="masks, or scenes of different size")(equalise)
    sub(P, name + "pca", pca_case.map(how).map(lambda k: {**k, "ny": max(k["ny"], -(-10 * k["nb"] // k["nx"]))}), quick=16, rule="fewer components than bands, or whitening")(pca)

again(P, "equalise", (), 40)
again(P, "pca", ("ny", "nx", "nb", "k"), 40)
