"""C15  Anomaly and target detectors: RX, ACE, SAM."""
import numpy as np
from hypothesis import strategies as st

from harness import cubes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds
from harness.cubes import kept, mean_cov, plain

P = "C15"
results_stay(P)
assume_note(P, "the spectral angle is given as its cosine; cubes have at least two bands and a covariance of full rank; float32 images are judged to 1e-3")


def tol(case):
    return 2e-3 if case["dtype"] == "float32" else 1e-7


def given(case, a, m, mean, icov):
    """the statistics to pass: those asked for, as plain arrays"""
    kw = {}
    if case["mean"]:
        kw["spectral_mean"] = mean.copy()
    if case["icov"]:
        kw["inverse_covariance"] = icov.copy()
    return kw


def special(case, mu, cov):
    """given statistics may also be none to speak of: no mean, or bands of unit variance"""
    return (mu * 0 if case["stats"] == "zero" else mu), (np.eye(len(mu)) if case["stats"] == "unit" else cov)


def rx_ref(rows, mu, icov):
    d = rows - mu
    return np.einsum("ij,jk,ik->i", d, icov, d, optimize=True)


base = cubes.cube_case.flatmap(lambda c: fixed(mean=st.booleans(), icov=st.booleans(), other=st.booleans(), stats=st.sampled_from(["scene", "scene", "scene", "zero", "unit"])).map(lambda d: {**c, **d}))


@sub(P, "rx", base, quick=700, rule="statistics given by the caller, or a cube that is not square")
def rx(case, ctx):
    """every pixel's Mahalanobis distance (squared) from the background"""
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make(case)
    ny, nx, nb = a.shape
    rows = kept(a, None)
    # statistics given by the caller may be any: those of the pixels the mask keeps
    mu_g, cov_g = mean_cov(kept(a, m))
    mu_own, cov_own = mean_cov(rows)
    mu_g, cov_g = special(case, mu_g, cov_g)
    icov_g = np.linalg.inv(cov_g)
    kw = given(case, a, m, mu_g, icov_g)
    mu = mu_g if case["mean"] else mu_own
    ic = icov_g if case["icov"] else np.linalg.inv(cov_own)
    if max(np.linalg.cond(cov_g), np.linalg.cond(cov_own)) > 1e6:
        ctx.label("ill-conditioned, not judged")
        return
    want = rx_ref(rows, mu, ic)
    t = tol(case) * (1 + np.abs(rows).max() ** 2 * np.abs(ic).max() * (1e-6 if case["dtype"] != "float32" else 1e-2))
    a0 = a.copy()
    got2 = s2.rx_anomaly_detector(a, **kw)
    got1 = s1.rx_anomaly_detector(np.array(a.reshape(-1, nb)), **kw)
    ctx.close_to(plain(got1), want, "1d RX", rtol=tol(case), atol=t)
    ctx.close_to(plain(got2), want.reshape(ny, nx), "2d RX", rtol=tol(case), atol=t)
    ctx.equal_arrays(a, a0, "the caller's image")
    if not case["mean"] and not case["icov"]:
        # the distances of all pixels from their own mean sum to (n - 1) bands
        ctx.close_to(np.sum(plain(got1)), (ny * nx - 1.0) * nb, "sum of RX over the scene", rtol=10 * tol(case), atol=t)
    ctx.label(case["dtype"])
    ctx.nontrivial(case["mean"] or case["icov"] or ny != nx)


def ace_ref(rows, t, mu, ic):
    tt = t - mu
    return ((rows - mu) @ ic.T @ tt) ** 2 / ((tt @ ic @ tt) * rx_ref(rows, mu, ic))


@sub(P, "ace", base, quick=900, rule="a mask, or statistics given by the caller, or a cube that is not square")
def ace(case, ctx):
    """adaptive cosine: 1 for the target itself, whatever its strength; invariant under mixing of bands"""
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make(case)
    ny, nx, nb = a.shape
    g = rng(case["seed"] + 9)
    rows = kept(a, None)
    mu_own, cov_own = mean_cov(kept(a, m))
    if np.linalg.cond(cov_own) > 1e6:
        ctx.label("ill-conditioned, not judged")
        return
    sd = np.sqrt(np.diag(cov_own))
    if case["other"]:
        # the target is a pixel of the scene
        tgt = rows[int(g.integers(len(rows)))].copy()
        if case["dtype"] not in ("float64", "float32"):
            tgt = np.round(tgt)
    else:
        tgt = mu_own + sd * (g.normal(0, 1, nb) + 2 * g.choice([-1, 1], nb))
    mu_g, cov_g = special(case, mu_own + 0.2 * sd, cov_own + np.diag(sd ** 2))
    icov_g = np.linalg.inv(cov_g)
    kw = given(case, a, m, mu_g, icov_g)
    mu = mu_g if case["mean"] else mu_own
    ic = icov_g if case["icov"] else np.linalg.inv(cov_own)
    td = tgt - mu
    dist = rx_ref(rows, mu, ic)
    ok = dist > 1e-3
    if td @ ic @ td < 1e-3:
        ctx.label("target is the background, not judged")
        return
    big = np.abs(rows).max() / sd.min()
    t = (1e-3 if case["dtype"] == "float32" else 1e-8) * (1 + big ** 2 * (1e-3 if case["dtype"] != "float32" else 1e-2))
    if t > 0.02:
        ctx.label("offset too large for the precision of the type, not judged")
        return
    want = ace_ref(rows[ok], tgt, mu, ic)
    a0, t0 = a.copy(), tgt.copy()
    mk = {} if m is None else {"image_mask": m}
    mf = {} if m is None else {"image_mask": np.ravel(m)}
    got1 = plain(s1.ace(np.array(a.reshape(-1, nb)), tgt, **kw, **mf))
    got2 = plain(s2.ace(a, tgt, **kw, **mk))
    ctx.equal(got2.shape, (ny, nx), "shape of the 2d result")
    ctx.equal(got1.shape, (ny * nx,), "shape of the 1d result")
    ctx.close_to(got1[ok], want, "1d ACE", rtol=t, atol=t)
    ctx.close_to(got2.ravel()[ok], want, "2d ACE", rtol=t, atol=t)
    ctx.equal_arrays(a, a0, "the caller's image")
    ctx.equal_arrays(tgt, t0, "the caller's target")
    # the same from data without their mean
    d2 = np.asarray(a, float) - mu
    g1 = plain(s1.ace_demeaned(d2.reshape(-1, nb), tgt - mu, ic))
    g2 = plain(s2.ace_demeaned(d2, tgt - mu, ic))
    ctx.close_to(g1[ok], want, "1d ACE of demeaned data", rtol=1e-6, atol=1e-7)
    ctx.close_to(g2, g1.reshape(ny, nx), "2d against 1d ACE of demeaned data", rtol=1e-12, atol=1e-12)
    # a stronger or fainter target is the same target
    f = float(g.choice([-3.0, 0.1, 7.0]))
    g3 = plain(s1.ace_demeaned(d2.reshape(-1, nb), f * (tgt - mu), ic))
    ctx.close_to(g3[ok], want, "ACE of a scaled target", rtol=1e-6, atol=1e-7)
    ctx.label(case["dtype"], "mask:" + case["mask"])
    ctx.nontrivial(m is not None or case["mean"] or case["icov"] or ny != nx)


@sub(P, "sam", base, quick=500, rule="a cube that is not square")
def sam(case, ctx):
    """the cosine of the angle between each spectrum and the target, for images of any type"""
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make(case)
    ny, nx, nb = a.shape
    g = rng(case["seed"] + 9)
    rows = kept(a, None)
    if case["other"]:
        # a target of the same type: a pixel of the image
        tgt = np.array(a[int(g.integers(ny)), int(g.integers(nx))])
    else:
        tgt = np.abs(rows).max() * g.uniform(-1, 1, nb)
    t = np.asarray(tgt, float)
    n1, n2 = np.sqrt((rows ** 2).sum(axis=1)), np.sqrt((t ** 2).sum())
    if n2 == 0:
        return
    ok = n1 > 0
    want = rows[ok] @ t / (n1[ok] * n2)
    with np.errstate(all="ignore"):
        got1 = s1.sam(np.array(a.reshape(-1, nb)), tgt)
        got2 = s2.sam(a, tgt)
    r = 1e-5 if case["dtype"] == "float32" else 1e-10
    ctx.equal(np.shape(got2), (ny, nx), "shape of the 2d result")
    ctx.close_to(got1[ok], want, "1d spectral angle", rtol=r, atol=r)
    ctx.close_to(np.ravel(got2)[ok], want, "2d spectral angle", rtol=r, atol=r)
    ctx.label(case["dtype"], "target:same type" if case["other"] else "target:float")
    ctx.nontrivial(ny != nx)


@sub(P, "units_of_bands", base.flatmap(lambda c: fixed(powers=st.lists(st.integers(-14, 14), min_size=c["nb"], max_size=c["nb"])).map(lambda d: {**c, **d, "dtype": "float64", "scale": 1.0})),
     quick=300, rule="bands whose units differ by more than a factor of a thousand")
def units_of_bands(case, ctx):
    """neither RX nor ACE depends on the unit each band is given in: bands multiplied by powers of two, however different"""
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make(case)
    nb = a.shape[-1]
    g = rng(case["seed"] + 5)
    rows = kept(a, m)
    mu, cov = mean_cov(rows)
    mu_all, cov_all = mean_cov(kept(a, None))
    if max(np.linalg.cond(cov), np.linalg.cond(cov_all)) > 1e4:
        ctx.label("ill-conditioned, not judged")
        return
    sd = np.sqrt(np.diag(cov))
    tgt = mu + sd * (g.normal(0, 1, nb) + 2 * g.choice([-1, 1], nb))
    f = 2.0 ** np.array(case["powers"])
    mk = {} if m is None else {"image_mask": m}
    mf = {} if m is None else {"image_mask": np.ravel(m)}
    flat = np.array(a.reshape(-1, nb))
    want_rx = rx_ref(kept(a, None), mu_all, np.linalg.inv(cov_all))
    ok = rx_ref(kept(a, None), mu, np.linalg.inv(cov)) > 1e-3
    want_ace = ace_ref(kept(a, None), tgt, mu, np.linalg.inv(cov))
    for what, got, want in (("1d RX", s1.rx_anomaly_detector(flat * f), want_rx), ("2d RX", np.ravel(plain(s2.rx_anomaly_detector(a * f))), want_rx),
                            ("1d ACE", plain(s1.ace(flat * f, tgt * f, **mf))[ok], want_ace[ok]), ("2d ACE", np.ravel(plain(s2.ace(a * f, tgt * f, **mk)))[ok], want_ace[ok])):
        ctx.close_to(plain(got), want, what, rtol=1e-6, atol=1e-6)
    ctx.label("spread of units: 2^%d" % (5 * ((max(case["powers"]) - min(case["powers"])) // 5)))
    ctx.nontrivial(max(case["powers"]) - min(case["powers"]) > 10)


for name, how in (("large_", cubes.tall), ("many_bands_", cubes.deep)):
    sub(P, name + "rx", base.map(how), quick=20, rule="statistics given by the caller, or a cube that is not square")(rx)
    sub(P, name + "ace", base.map(how), quick=24, rule="a mask, or statistics given by the caller, or a cube that is not square")(ace)
    sub(P, name + "sam", base.map(how), quick=16, rule="a cube that is not square")(sam)

for name in ("rx", "ace", "sam"):
    again(P, name, ("ny", "nx", "nb", "dtype", "mask"), 50)
