"""C18  Spectra resampled to the bands of a sensor."""
import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds

P = "C18"
results_stay(P)
assume_note(P, "spectrum and responses are in the same wavelength unit; responses are given at rising wavelengths and overlap the spectrum")

band = fixed(lo=q(0, 0.9), width=q(0.02, 0.6), k=st.integers(2, 12), shape=st.sampled_from(["box", "triangle", "random", "edgezero"]), over=st.booleans())
case_r = fixed(n=st.integers(3, 60), seed=seeds(), bands=st.lists(band, min_size=1, max_size=5), unit=st.sampled_from([1.0, 1000.0]), spacing=st.sampled_from(["even", "uneven", "falling"]),
               gap=st.sampled_from(["none", "none", "some"]), glo=q(0, 1), gw=q(0, 0.3), marker=st.sampled_from(["usgs", "usgs", "nan", "minus", "none"]), kind=st.sampled_from(["random", "constant", "smooth"]), scale=logq(0.01, 1e4))


def trap(y, x):
    return float(np.sum((y[1:] + y[:-1]) * 0.5 * np.diff(x)))


@sub(P, "resample", case_r, quick=1200, rule="at least two bands with response inside the spectrum, uneven spacing or gaps")
def resample(case, ctx):
    """each band is the response-weighted mean of the spectrum; what lies outside a band does not matter to it"""
    from resippy.spectral.spectrum import Spectrum
    g = rng(case["seed"])
    n, u = case["n"], case["unit"]
    w = np.linspace(0.4, 1.4, n)
    if case["spacing"] != "even":
        w = np.sort(0.4 + g.random(n))
        w[0], w[-1] = 0.4, 1.4
        if np.diff(w).min() < 1e-6:
            w = np.linspace(0.4, 1.4, n)
    d = {"random": lambda: g.uniform(0, 1, n), "constant": lambda: np.full(n, 0.37), "smooth": lambda: 0.5 + 0.3 * np.sin(6 * w)}[case["kind"]]() * case["scale"]
    raw = d.copy()
    gap = np.zeros(n, bool)
    # what stands for no data, and whether the spectrum says so
    nodata = {"usgs": -1.23e34, "nan": float("nan"), "minus": -9999.0, "none": None}[case["marker"]]
    if case["gap"] == "some":
        gap = (w >= 0.4 + case["glo"]) & (w <= 0.4 + case["glo"] + case["gw"])
        raw[gap] = np.nan if nodata is None else nodata
    w = w * u
    if case["spacing"] == "falling":
        w, d, raw, gap = w[::-1].copy(), d[::-1].copy(), raw[::-1].copy(), gap[::-1].copy()
    sp = Spectrum()
    sp.set_wavelengths(w.copy())
    sp.set_spectral_data(raw.copy())
    if nodata is not None:
        sp.set_nodata_val(nodata)
    sp.set_spectrum_units("radiance of some sort")
    rsr, want, judged = [], [], []
    for b in case["bands"]:
        k = b["k"]
        x = np.linspace(0.4 + b["lo"], 0.4 + b["lo"] + b["width"], k)
        if b["over"]:
            x = x - 0.1          # may reach beyond the spectrum
        r = {"box": np.ones(k), "triangle": 1 - np.abs(np.linspace(-1, 1, k)) * 0.9, "random": g.uniform(0.05, 1, k), "edgezero": np.concatenate([[0.0], g.uniform(0.05, 1, k - 2), [0.0]])}[b["shape"]]
        s = Spectrum()
        s.set_wavelengths(x * u)
        s.set_spectral_data(r.copy())
        rsr.append(s)
        # the response at each channel of the spectrum: linear between its samples, none outside
        R = np.zeros(n)
        for i in range(n):
            t = w[i] / u
            if x[0] * u <= w[i] <= x[-1] * u:
                j = min(int(np.searchsorted(x * u, w[i], side="right")) - 1, k - 2)
                f = (w[i] - x[j] * u) / (x[j + 1] * u - x[j] * u)
                R[i] = r[j] + f * (r[j + 1] - r[j])
        width = trap(R, w)
        clear = abs(width) > 1e-3 * u * 0.02
        hit = bool(np.any(gap & (R > 1e-9)))
        edge = bool(np.any((R > 0) & (R <= 1e-9)))
        judged.append(clear and not edge)
        if not clear:
            want.append(np.nan)
        elif hit:
            want.append(np.nan)
        else:
            want.append(trap(np.where(R > 0, d * R, 0.0), w) / width)
    centers = np.array([0.4 + b["lo"] + b["width"] / 2 for b in case["bands"]]) * u
    with np.errstate(all="ignore"):
        out = sp.resample_spectrum_direct(rsr, centers.copy())
    got = out.get_spectral_data()
    judged = np.array(judged)
    ctx.equal(np.shape(got), (len(rsr),), "number of bands")
    ctx.close_to(np.asarray(got)[judged], np.array(want)[judged], "band values", rtol=1e-9, atol=1e-12 * case["scale"])
    ctx.equal_arrays(out.get_wavelengths(), centers, "band centers")
    ctx.equal(out.get_spectrum_units(), "radiance of some sort", "units")
    ctx.equal_arrays(sp.get_spectral_data(nodata_to_nan=False), raw, "the spectrum resampled")
    ctx.equal_arrays(sp.get_wavelengths(), w, "its wavelengths")
    if case["kind"] == "constant" and not gap.any():
        ctx.close_to(np.asarray(got)[judged], np.full(judged.sum(), 0.37 * case["scale"]), "constant spectrum", rtol=1e-9)
    ctx.label("marker:" + case["marker"], "gaps" if gap.any() else "no gaps", case["spacing"])
    ctx.nontrivial(judged.sum() > 1 and (case["spacing"] != "even" or gap.any()))


sub(P, "long_resample", case_r.map(lambda k: {**k, "n": 31 + 35 * k["n"], "bands": [{**b, "k": b["k"] * 20} for b in k["bands"]]}), quick=40, rule="at least two bands with response inside the spectrum, uneven spacing or gaps")(resample)
sub(P, "many_bands_resample", case_r.map(lambda k: {**k, "n": 3 * k["n"], "bands": [{**b, "lo": (b["lo"] + 0.017 * i) % 0.9} for i in range(12) for b in k["bands"]]}), quick=24,
    rule="at least two bands with response inside the spectrum, uneven spacing or gaps")(resample)
again(P, "resample", ("n", "bands", "spacing", "unit"), 60)


def values_of(w, d, x, r):
    """response-weighted mean, and the width of the band as the spectrum samples it"""
    R = np.zeros(len(w))
    for i in range(len(w)):
        if x[0] <= w[i] <= x[-1]:
            j = min(int(np.searchsorted(x, w[i], side="right")) - 1, len(x) - 2)
            R[i] = r[j] + (w[i] - x[j]) / (x[j + 1] - x[j]) * (r[j + 1] - r[j])
    width = trap(R, w)
    return (trap(d * R, w) / width if abs(width) > 1e-3 else np.nan), width


sensor = fixed(bands=st.lists(fixed(lo=q(0, 0.7), width=q(0.1, 0.6), k=st.integers(2, 9)), min_size=1, max_size=3), seed=seeds(), spectra=st.lists(fixed(
    n=st.integers(8, 40), kind=st.sampled_from(["random", "constant"]), uneven=st.booleans()), min_size=2, max_size=4),
    steps=st.lists(fixed(op=st.sampled_from(["resample", "resample", "resample", "new data", "new wavelengths", "new response"]), i=st.integers(0, 3)), min_size=3, max_size=8))


@sub(P, "one_sensor", sensor, quick=300, rule="the same responses used for two spectra, or for one spectrum before and after a change")
def one_sensor(case, ctx):
    """one set of responses used for many spectra, in any order, with spectra and responses changing in between"""
    from resippy.spectral.spectrum import Spectrum
    g = rng(case["seed"])

    def grid(s):
        w = np.linspace(0.4, 1.4, s["n"])
        if s["uneven"]:
            w[1:-1] += g.uniform(-0.3, 0.3, s["n"] - 2) / s["n"]
        return w
    rsr, sps = [], []
    for b in case["bands"]:
        x, r = np.linspace(0.4 + b["lo"], 0.4 + b["lo"] + b["width"], b["k"]), g.uniform(0.05, 1, b["k"])
        s = Spectrum()
        s.set_wavelengths(x.copy())
        s.set_spectral_data(r.copy())
        rsr.append([s, x, r])
    for c in case["spectra"]:
        w = grid(c)
        d = g.uniform(0, 1, c["n"]) if c["kind"] == "random" else np.full(c["n"], 0.37)
        s = Spectrum()
        s.set_wavelengths(w.copy())
        s.set_spectral_data(d.copy())
        sps.append([s, w, d])
    centers = np.arange(len(rsr)) + 0.5
    done = []
    for k, step in enumerate(case["steps"] + [{"op": "resample", "i": i} for i in range(len(sps))]):
        what = "step %d: " % k
        e = sps[step["i"] % len(sps)]
        if step["op"] == "new data":
            e[2] = g.uniform(0, 1, len(e[1]))
            e[0].set_spectral_data(e[2].copy())
        elif step["op"] == "new wavelengths":
            e[1] = np.sort(g.uniform(0.4, 1.4, len(e[1])))
            e[0].set_wavelengths(e[1].copy())
        elif step["op"] == "new response":
            b = rsr[step["i"] % len(rsr)]
            b[2] = g.uniform(0.05, 1, len(b[1]))
            b[0].set_spectral_data(b[2].copy())
        else:
            want = [values_of(e[1], e[2], b[1], b[2]) for b in rsr]
            ok = np.array([np.isfinite(v) for v, _ in want])
            with np.errstate(all="ignore"):
                got = np.asarray(e[0].resample_spectrum_direct([b[0] for b in rsr], centers.copy()).get_spectral_data())
            ctx.close_to(got[ok], np.array([v for v, _ in want])[ok], what + "band values of spectrum %d" % (step["i"] % len(sps)), rtol=1e-9, atol=1e-12)
            for b in rsr:
                ctx.equal_arrays(b[0].get_spectral_data(), b[2], what + "a response")
            if ok.any():
                done.append(step["i"] % len(sps))
    ctx.nontrivial(len(done) > 1)
