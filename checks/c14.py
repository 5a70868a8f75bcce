"""C14  Spectral means, covariances and masks."""
import numpy as np
from hypothesis import strategies as st

from harness import cubes
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds, uint
from harness.cubes import kept, mean_cov, plain

P = "C14"
results_stay(P)
assume_note(P, "cubes have at least two bands; masks leave at least two pixels per band; a nonzero mask value leaves the pixel out")


@sub(P, "statistics", cubes.cube_case, quick=900, rule="a mask that leaves pixels out")
def statistics(case, ctx):
    from resippy.spectral import spectral_image_processing_1d as s1
    from resippy.spectral import spectral_image_processing_2d as s2
    a, m = cubes.make(case)
    ny, nx, nb = a.shape
    rows = kept(a, m)
    mu, cov = mean_cov(rows)
    top = np.abs(rows).max() + 1e-300
    r = cubes.rtol(case)
    # sums of single-precision values may be formed in single precision
    rc, ac = (1e-5, 2e-6 * top * top) if case["dtype"] == "float32" else (1e-8, 1e-9 * top * top)
    flat = np.array(a.reshape(ny * nx, nb))
    fm = None if m is None else np.ravel(m).copy()
    a0, m0 = a.copy(), None if m is None else m.copy()
    for what, got in (("1d", s1.compute_image_cube_spectral_mean(flat, fm)), ("2d", s2.compute_image_cube_spectral_mean(a, m))):
        ctx.close_to(plain(got), mu, what + " mean", rtol=r, atol=r * top)
    for what, got in (("1d", s1.compute_image_cube_spectral_covariance(flat, fm)), ("2d", s2.compute_image_cube_spectral_covariance(a, m))):
        ctx.close_to(plain(got), cov, what + " covariance", rtol=rc, atol=ac)
    want = np.asarray(a, dtype=float) - mu
    ctx.close_to(plain(s1.demean_image_data(flat, fm)), want.reshape(-1, nb), "1d image without its mean", rtol=r, atol=2 * r * top)
    ctx.close_to(plain(s2.demean_image_data(a, m)), want, "2d image without its mean", rtol=r, atol=2 * r * top)
    ctx.equal_arrays(a, a0, "the caller's image")
    if m is not None:
        ctx.equal_arrays(m, m0, "the caller's mask")
        # what the pixels left out hold does not matter
        g = rng(case["seed"] + 5)
        b = a.copy()
        b[np.asarray(m) != 0] = g.integers(0, 100)
        ctx.close_to(plain(s2.compute_image_cube_spectral_mean(b, m)), mu, "mean with other values in pixels left out", rtol=r, atol=r * top)
        ctx.close_to(plain(s2.compute_image_cube_spectral_covariance(b, m)), cov, "covariance with other values in pixels left out", rtol=rc, atol=ac)
        if case["dtype"].startswith("float"):
            b[np.asarray(m) != 0] = np.nan
            ctx.close_to(plain(s2.compute_image_cube_spectral_mean(b, m)), mu, "mean with nan in pixels left out", rtol=r, atol=r * top)
            ctx.close_to(plain(s2.compute_image_cube_spectral_covariance(b, m)), cov, "covariance with nan in pixels left out", rtol=rc, atol=ac)
    ctx.label(case["dtype"], "mask:" + case["mask"])
    ctx.nontrivial(len(rows) < ny * nx)


sub(P, "large_statistics", cubes.cube_case.map(cubes.tall), quick=40, rule="a mask that leaves pixels out")(statistics)
sub(P, "statistics_of_many_bands", cubes.cube_case.map(cubes.deep), quick=30, rule="a mask that leaves pixels out")(statistics)


@sub(P, "large_layout", fixed(ny=uint(1, 400), nx=uint(1, 400), nb=uint(1, 60), seed=seeds(), dtype=st.sampled_from(cubes.DT)), quick=16, rule="a cube that is not square")
@sub(P, "layout", fixed(ny=st.integers(1, 12), nx=st.integers(1, 12), nb=st.integers(1, 8), seed=seeds(), dtype=st.sampled_from(cubes.DT)), quick=500,
     rule="a cube that is not square")
def layout(case, ctx):
    """cubes become lists of spectra and back without any spectrum or pixel changing its place"""
    from resippy.utils import spectral_utils as su
    from resippy.utils.image_utils import image_utils as iu
    ny, nx, nb = case["ny"], case["nx"], case["nb"]
    g = rng(case["seed"])
    a = g.integers(0, 200, (ny, nx, nb)).astype(case["dtype"])
    ctx.equal(tuple(su.get_2d_cube_nx_ny_nbands(a)), (nx, ny, nb), "size of the cube")
    f = su.flatten_image_cube(a)
    ctx.equal(f.shape, (ny * nx, nb), "shape of the list of spectra")
    ctx.equal((bool(su.is_2d_cube(a)), bool(su.is_1d_cube(a)), bool(su.is_2d_cube(f)), bool(su.is_1d_cube(f))), (True, False, False, True), "kinds of cubes")
    ctx.equal_arrays(f, np.array([a[i, j] for i in range(ny) for j in range(nx)]), "list of spectra")
    ctx.equal_arrays(su.unflatten_image_cube(f, nx, ny), a, "cube restored")
    b = a[:, :, 0]
    fb = iu.flatten_image_band(b)
    ctx.equal_arrays(fb, b.ravel(), "band as a list")
    ctx.equal_arrays(iu.unflatten_image_band(fb, nx, ny), b, "band restored")
    x, y = iu.create_pixel_grid(nx, ny)
    ctx.equal_arrays(x, np.tile(np.arange(nx), (ny, 1)), "pixel grid x")
    ctx.equal_arrays(y, np.tile(np.arange(ny)[:, None], (1, nx)), "pixel grid y")
    ctx.nontrivial(ny != nx)


again(P, "statistics", ("ny", "nx", "nb", "dtype", "mask"), 60)
again(P, "layout", ("ny", "nx", "nb"), 40)
