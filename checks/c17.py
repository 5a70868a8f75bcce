"""C17  Spectra: library files, no-data and units."""
import os

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, logq, q, rng, seeds

P = "C17"
results_stay(P)
NODATA = -1.23e34
assume_note(P, "library files are well formed: one value (or one row of columns) per line, no blank lines; values with units are asked for only where the spectrum's units are unit objects")


def num(v, style):
    return {"repr": repr(float(v)), "e": "%.9e" % v, "f": "%.8f" % v, "pad": "   %.7f  " % v}[style]


def lines_out(path, lines, eol, last):
    with open(path, "w", newline="") as f:
        f.write(eol.join(lines) + (eol if last else ""))


word = st.text(alphabet=st.sampled_from(list("abcxyzABZ0189_-[]*?. ")), min_size=1, max_size=8).map(lambda t: t.strip(" .") or "x")
style = st.sampled_from(["repr", "e", "f", "pad"])
common = dict(n=st.integers(1, 40), seed=seeds(), style=style, eol=st.sampled_from(["\n", "\r\n"]), last=st.booleans())

usgs = fixed(lib=word, chapter=word, name=word, wname=st.sampled_from(["Wavelengths_ASD_2151ch", "splib07a_wavelengths", "xx_WAVES_yy", "s07 waves"]),
             fname=st.sampled_from(["Bandpass_(FWHM)_ASD", "splib07a_BANDPASS", "Resolution_xx", "s07_resolution"]), extra=st.lists(word, max_size=2), bad=q(0, 0.5), **common)


def values(case, k):
    """numbers as the file states them, and how it states them"""
    g = rng(case["seed"] + k)
    v = g.uniform(0.0, 2.5, case["n"])
    return v


@sub(P, "usgs", usgs, quick=400, rule="channels without data, or directory names with special characters")
def usgs_library(case, ctx):
    from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
    from resippy.utils.units import ureg
    F = SpectrumFactory.usgs.ascii.UsgsAsciiSpectralFactory
    base = ctx.path("lib_" + case["lib"], "ch_" + case["chapter"])
    os.makedirs(base, exist_ok=True)
    up = os.path.dirname(base)
    w = np.sort(values(case, 0))
    fw = values(case, 1) * 0.01
    r = values(case, 2)
    g = rng(case["seed"] + 3)
    bad = g.random(case["n"]) < case["bad"]
    s = case["style"]
    for nm, vals in ((case["wname"], w), (case["fname"], fw)):
        lines_out(os.path.join(up, nm + ".txt"), ["header line: not a number"] + [num(v, s) for v in vals], case["eol"], case["last"])
    for k, e in enumerate(case["extra"]):
        if not any(t in e.lower() for t in ("wave", "resol", "bandpass")):
            lines_out(os.path.join(up, "other%d_%s.txt" % (k, e.replace("/", "_"))), ["header", "1", "2"], "\n", True)
    f = os.path.join(base, "s_" + case["name"] + ".txt")
    lines_out(f, [" splib07a Record=1: something"] + ["-1.2300000e+034" if b else num(v, s) for v, b in zip(r, bad)], case["eol"], case["last"])
    sp = F.from_ascii_file(f)
    pr = lambda a: np.array([float(num(v, s)) for v in a])
    ctx.equal_arrays(sp.get_wavelengths(), pr(w), "wavelengths")
    ctx.equal_arrays(sp.get_fwhm(), pr(fw), "band widths")
    raw = np.where(bad, NODATA, pr(r))
    ctx.equal_arrays(sp.get_spectral_data(nodata_to_nan=False), raw, "reflectances as in the file")
    want = np.where(bad, np.nan, pr(r))
    ctx.equal_arrays(sp.get_spectral_data(), want, "reflectances")
    ctx.equal_arrays(sp.get_spectral_data(nodata_to_nan=False), raw, "reflectances as in the file, asked again")
    ctx.equal(sp.get_nodata_val(), NODATA, "no-data value")
    ctx.equal(sp.get_fname(), f, "file name")
    wl = sp.get_wavelengths(with_units=True).to("nanometer").magnitude
    ctx.close_to(wl, pr(w) * 1000, "wavelengths in nanometers", rtol=1e-12)
    ctx.close_to(sp.get_fwhm(with_units=True).to("nanometer").magnitude, pr(fw) * 1000, "band widths in nanometers", rtol=1e-12)
    rr = sp.get_spectral_data(with_units=True)
    ctx.equal_arrays(rr.magnitude, want, "reflectances with units")
    ctx.check(rr.units == (1 * ureg.reflectance_zero_to_one).units, "units of reflectance: %s" % rr.units)
    ctx.nontrivial(bad.any() or any(ch in case["lib"] + case["chapter"] for ch in "[]*?"))


other = fixed(kind=st.sampled_from(["envi", "svc", "csv"]), delim=st.sampled_from([",", ";", "\t"]), nheader=st.integers(0, 3), wi=st.integers(0, 3), ri=st.integers(0, 3),
              ncol=st.integers(2, 4), pre=st.integers(0, 12), sep=st.sampled_from([" ", "  ", "\t", "    "]), **common)


@sub(P, "other_libraries", other, quick=600, rule="more than one channel")
def other_libraries(case, ctx):
    from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory as SF
    n, s, k = case["n"], case["style"], case["kind"]
    w, r, u, v = (values(case, i) * 100 for i in range(4))
    f = ctx.path("spectrum file.txt")
    tx = lambda a: num(a, s)
    scale = 1.0
    if k == "envi":
        L = ["ENVI ASCII Plot File [date]", "Column 1: Wavelength", "Column 2: spectrum~~2"] + ["  " + case["sep"].join((tx(a), tx(b))) for a, b in zip(w, r)]
        lines_out(f, L, case["eol"], case["last"])
        sp = SF.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file(f)
    elif k == "svc":
        L = ["/*** Spectra Vista SIG Data ***/"] + ["key%d= data, 12.5, 14" % i for i in range(case["pre"])] + ["data= "]
        L += [case["sep"].join((tx(a), tx(b), tx(c), tx(d))) for a, b, c, d in zip(w, u, v, r)]
        lines_out(f, L, case["eol"], case["last"])
        sp = SF.svc.ascii.SvcAsciiFileFactory.from_sig_file(f)
        scale = 100.0
    else:
        nc = case["ncol"]
        wi, ri = case["wi"] % nc, case["ri"] % nc
        if wi == ri:
            ri = (ri + 1) % nc
        cols = [u, v, u + 1, v + 1][:nc]
        cols[wi], cols[ri] = w, r
        L = [case["delim"].join("name%d_%d" % (h, i) for i in range(nc)) for h in range(case["nheader"])] + [case["delim"].join(tx(c[i]) for c in cols) for i in range(n)]
        lines_out(f, L, case["eol"], case["last"])
        kw = {}
        if (case["delim"], case["nheader"], wi, ri) != (",", 1, 0, 1):
            kw = dict(delimiter=case["delim"], nheader=case["nheader"], wave_index=wi, reflectance_index=ri)
        sp = SF.csv.ascii.CsvAsciiFileFactory.from_csv_file(f, **kw)
    pr = lambda a: np.array([float(num(t, s)) for t in a])
    ctx.equal_arrays(sp.get_wavelengths(), pr(w), k + " wavelengths")
    ctx.close_to(sp.get_spectral_data(), pr(r) / scale, k + " reflectances", rtol=1e-14, atol=0)
    ctx.equal((sp.get_wavelength_units(), sp.get_spectrum_units()), ("nanometers", "reflectance_0-1"), "units")
    ctx.label(k)
    ctx.nontrivial(n > 1)


spec = fixed(n=st.integers(1, 30), seed=seeds(), dtype=st.sampled_from(["float64", "float32", "int16", "uint8"]), nodata=st.sampled_from(["none", "absent", "some", "nan"]),
             ops=st.lists(st.tuples(st.sampled_from(["data", "waves", "fwhm", "nodata", "ask", "spoil", "units"]), seeds()), max_size=10))


@sub(P, "spectrum_history", spec, quick=500, rule="data and no-data value both set, more than three operations")
def spectrum_history(case, ctx):
    """a spectrum answers with what was set last, and handing out data never changes it"""
    from resippy.spectral.spectrum import Spectrum
    from resippy.utils.units import ureg
    sp = Spectrum()
    n = case["n"]
    model = {}

    def put(what, s):
        g = rng(s)
        if what == "data":
            a = g.integers(0, 6, n).astype(case["dtype"])
            model["data"] = a.copy()
            sp.set_spectral_data(a)
        elif what == "waves":
            model["waves"] = np.sort(g.uniform(0.3, 2.5, n))
            sp.set_wavelengths(model["waves"].copy())
        elif what == "fwhm":
            model["fwhm"] = g.uniform(0, 0.1, n)
            sp.set_fwhm(model["fwhm"].copy())
        elif what == "nodata":
            v = {"none": None, "absent": 77, "some": int(g.integers(0, 6)), "nan": float("nan")}[case["nodata"]]
            model["nodata"] = v
            sp.set_nodata_val(v)
        elif what == "units":
            model["wu"] = ["micrometer", "nanometer", "meter"][s % 3]
            sp.set_wavelength_units(ureg.parse_units(model["wu"]))
            sp.set_spectrum_units(ureg.parse_units("dimensionless"))

    put("data", case["seed"])
    for i, (op, s) in enumerate([*case["ops"], ("ask", 0)]):
        if op == "spoil":
            for b in (sp.get_spectral_data(nodata_to_nan=False), sp.get_spectral_data()):
                b[...] = 99
        elif op != "ask":
            put(op, s)
        d = model["data"]
        raw = sp.get_spectral_data(nodata_to_nan=False)
        ctx.equal_arrays(raw, d, "data as set, after %d operations" % i)
        nd = model.get("nodata")
        want = d.astype(float)
        if nd is not None:
            want[want == nd] = np.nan
        ctx.equal_arrays(np.asarray(sp.get_spectral_data(), dtype=float), want, "data with no-data as nan")
        if "wu" in model:
            ctx.equal_arrays(np.asarray(sp.get_spectral_data(with_units=True).magnitude, float), want, "data with units")
            for nm, get in (("waves", sp.get_wavelengths), ("fwhm", sp.get_fwhm)):
                if nm in model:
                    v = get(with_units=True).to("meter").magnitude
                    ctx.close_to(v, model[nm] * {"micrometer": 1e-6, "nanometer": 1e-9, "meter": 1.0}[model["wu"]], nm + " with units", rtol=1e-12, atol=0)
        for nm, get in (("waves", sp.get_wavelengths), ("fwhm", sp.get_fwhm)):
            if nm in model:
                ctx.equal_arrays(get(), model[nm], nm)
    ctx.label(case["dtype"], "nodata:" + case["nodata"])
    ctx.nontrivial("nodata" in model and len(case["ops"]) > 3)


def long(k):
    """the same case with as many channels as a field spectrometer has"""
    return {**k, "n": 151 + 50 * k["n"]}


sub(P, "long_usgs", usgs.map(long), quick=16, rule="channels without data, or directory names with special characters")(usgs_library)
sub(P, "long_other_libraries", other.map(long), quick=24, rule="more than one channel")(other_libraries)
sub(P, "long_spectrum_history", spec.map(long), quick=24, rule="data and no-data value both set, more than three operations")(spectrum_history)
again(P, "usgs", ("lib", "chapter", "name", "wname", "fname", "extra"), 60, always=True)
again(P, "other_libraries", ("kind",), 60)
again(P, "spectrum_history", ("n", "nodata"), 40)
