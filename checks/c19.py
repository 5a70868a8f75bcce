"""C19  ENVI images and headers."""
import os

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import array_of, fixed, logq, q, rng, seeds

P = "C19"
results_stay(P)
assume_note(P, "interleave names are lower case as ENVI and GDAL write them; header values contain no closing brace inside braces")
TYPES = {1: "uint8", 2: "int16", 3: "int32", 4: "float32", 5: "float64", 6: "complex64", 9: "complex128", 12: "uint16", 13: "uint32", 14: "int64", 15: "uint64"}
CODES = {np.dtype(v): k for k, v in TYPES.items()}


def content(case, dtype, shape):
    dt = np.dtype(dtype)
    if dt.kind == "c":
        return (array_of(case["seed"], shape, "float32", case["kind"]) + 1j * array_of(case["seed"] + 1, shape, "float32", case["kind"])).astype(dt)
    if dt.itemsize == 8 and dt.kind in "iu":
        g = rng(case["seed"])
        i = np.iinfo(dt)
        return g.integers(i.min, i.max, size=shape, dtype=dt, endpoint=True)
    return array_of(case["seed"], shape, dtype, case["kind"])


img = fixed(ny=st.integers(1, 9), nx=st.integers(2, 9), nb=st.integers(1, 5), seed=seeds(), kind=st.sampled_from(["mixed", "extreme"]), code=st.sampled_from(sorted(TYPES)),
            ext=st.sampled_from(["", ".img", ".dat", ".bsq"]), stem=st.sampled_from(["image", "image", "flight.2.line 7", "a.hdr.b"]), hdr=st.sampled_from(["default", "default", "named", "swapped"]), inter=st.sampled_from(["bil", "bip", "bsq"]),
            order=st.sampled_from(["C", "F", "view"]))


def gdal_pixels(f):
    # (GDAL does not open a file of one byte, so images are at least two pixels wide)
    import gdal
    ds = gdal.Open(f)
    return ds, np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)


@sub(P, "image_round_trip", img, quick=600, rule="more than one band, row and column")
def image_round_trip(case, ctx):
    """written by the package: read back by the package, by GDAL and by the ENVI image object with the same pixels"""
    from resippy.utils import envi_utils as eu
    from resippy.image_objects.image_factory import ImageFactory
    dt = TYPES[case["code"]]
    ny, nx, nb = case["ny"], case["nx"], case["nb"]
    a = content(case, dt, (ny, nx, nb))
    if case["order"] == "F":
        a = np.asfortranarray(a)
    elif case["order"] == "view":
        b = np.zeros((ny, nx * 2, nb), a.dtype)
        b[:, ::2] = a
        a = b[:, ::2]
    f = ctx.path(case["stem"] + case["ext"])
    kw, h = {}, f + ".hdr"
    if case["hdr"] == "swapped" and case["ext"]:
        h = ctx.path(case["stem"] + ".hdr")
        kw["output_header_fname"] = h
    elif case["hdr"] == "named":
        h = ctx.path("elsewhere", "other.hdr")
        kw["output_header_fname"] = h
    if case["inter"] != "bil":
        kw["interleave"] = case["inter"]
    a0 = a.copy()
    eu.write_envi_image(a, f, **kw)
    ctx.equal_arrays(a, a0, "the caller's image")
    ctx.check(os.path.exists(h), "no header %s" % h)
    got = eu.read_envi_image(f, **({"header_file": h} if case["hdr"] == "named" else {}))
    ctx.equal(got.dtype, np.dtype(dt), "data type")
    ctx.equal_arrays(got, a, "pixels read back")
    hd = eu.read_envi_header(h)
    ctx.equal((hd["samples"], hd["lines"], hd["bands"], hd["data type"], hd["interleave"]), (nx, ny, nb, case["code"], case["inter"]), "header")
    if case["hdr"] != "named":
        ds, g = gdal_pixels(f)
        ctx.equal_arrays(g, a, "pixels GDAL reads")
        ds = None
        im = ImageFactory.envi.from_file(f)
        md = im.get_metadata()
        ctx.equal((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()), (nx, ny, nb), "metadata of the image object")
        ctx.equal_arrays(im.read_all_image_data_from_disk(), a, "pixels of the image object")
        for b in range(nb):
            ctx.equal_arrays(im.read_band_from_disk(b), a[:, :, b], "band %d of the image object" % b)
    ctx.label(dt, case["inter"])
    ctx.nontrivial(min(ny, nx, nb) > 1)


foreign = fixed(ny=st.integers(1, 9), nx=st.integers(2, 9), nb=st.integers(1, 5), seed=seeds(), kind=st.sampled_from(["mixed", "extreme"]), code=st.sampled_from(sorted(TYPES)),
                inter=st.sampled_from(["bil", "bip", "bsq"]), offset=st.sampled_from([0, 0, 0, 1, 7, 512]), big=st.booleans(), stem=st.sampled_from(["image", "image", "flight.2.line 7", "a.hdr.b"]), hdr=st.sampled_from(["add", "replace"]),
                eol=st.sampled_from(["\n", "\r\n"]), last=st.booleans(), explicit=st.booleans())


@sub(P, "foreign_image", foreign, quick=600, rule="another interleave than bil, a header offset or big-endian data")
def foreign_image(case, ctx):
    """written by other software: every interleave, byte order and header offset, pixels as GDAL reads them"""
    from resippy.utils import envi_utils as eu
    dt = np.dtype(TYPES[case["code"]])
    ny, nx, nb = case["ny"], case["nx"], case["nb"]
    a = content(case, dt, (ny, nx, nb))
    f = ctx.path(case["stem"] + ".dat")
    raw = {"bil": a.transpose(0, 2, 1), "bip": a, "bsq": a.transpose(2, 0, 1)}[case["inter"]]
    body = np.ascontiguousarray(raw).astype(dt.newbyteorder(">" if case["big"] else "<")).tobytes()
    with open(f, "wb") as o:
        o.write(b"\x5a" * case["offset"] + body)
    L = ["ENVI", "description = {", "  made = elsewhere }", "samples = %d" % nx, "lines   = %d" % ny, "bands   = %d" % nb]
    if case["offset"] or case["explicit"]:
        L.append("header offset = %d" % case["offset"])
    L += ["file type = ENVI Standard", "data type = %d" % case["code"], "interleave = %s" % case["inter"]]
    if case["big"] or case["explicit"]:
        L.append("byte order = %d" % case["big"])
    h = f + ".hdr" if case["hdr"] == "add" else ctx.path(case["stem"] + ".hdr")
    with open(h, "w", newline="") as o:
        o.write(case["eol"].join(L) + (case["eol"] if case["last"] else ""))
    ds, g = gdal_pixels(f)
    ctx.equal_arrays(g, a, "(harness) pixels GDAL reads")
    got = eu.read_envi_image(f)
    ctx.equal_arrays(got, a, "pixels")
    ctx.equal(got.dtype.newbyteorder("="), dt, "data type")
    ctx.label(dt.name, case["inter"], "big" if case["big"] else "little", "offset:%d" % case["offset"])
    ctx.nontrivial(case["inter"] != "bil" or case["offset"] > 0 or case["big"])


name = st.text(alphabet=st.sampled_from(list("abcdefXYZ 0123456789_-.:;()/=")), min_size=1, max_size=14).map(lambda t: " ".join(t.split()).strip() or "n").map(lambda t: "a" + t.strip("= "))
hdr = fixed(entries=st.lists(st.tuples(st.sampled_from(["wavelength", "fwhm", "band names", "description", "map info", "sensor type", "samples", "lines", "bands", "header offset", "byte order",
                                                        "data type", "x start", "y start", "wavelength units", "acquisition time", "data ignore value", "coordinate system string", "bbl"]),
                                       st.integers(1, 6), seeds(), name), max_size=9, unique_by=lambda t: t[0]),
            eol=st.sampled_from(["\n", "\r\n"]), last=st.booleans(), wrap=st.integers(1, 3), pad=st.sampled_from(["", " ", "   "]), blank=st.booleans(), caps=st.booleans())
INT = ["samples", "lines", "bands", "header offset", "byte order", "data type", "x start", "y start"]
LISTS = ["wavelength", "fwhm", "band names", "bbl"]


@sub(P, "header", hdr, quick=800, rule="at least three entries, one of them in braces")
def header(case, ctx):
    """every entry of a header is found, with its value; what is read can be written and read again"""
    from resippy.utils import envi_utils as eu
    L, want = ["ENVI"], {}
    braces = 0
    for k, n, s, nm in case["entries"]:
        g = rng(s)
        key = k.title() if case["caps"] else k
        eq = case["pad"] + "=" + case["pad"]
        if k in INT:
            v = int(g.integers(0, 5000))
            want[k] = v
            L.append(key + eq + str(v))
        elif k in ("wavelength", "fwhm"):
            v = np.round(g.uniform(0.1, 2500, n), int(g.integers(0, 7)))
            want[k] = v
            items = ["%r" % float(t) for t in v]
        elif k == "bbl":
            items = ["%d" % t for t in g.integers(0, 2, n)]
            want[k] = items
        elif k in ("band names",):
            items = [nm.replace(",", "") + str(i) for i in range(n)]
            want[k] = items
        elif k in ("description", "map info", "coordinate system string"):
            items = [nm]
            want[k] = items
        else:
            want[k] = nm.strip()
            L.append(key + eq + nm)
        if k not in INT and not isinstance(want[k], str):
            braces += 1
            # a list in braces may go over several lines
            per = case["wrap"] * 2
            rows = [items[i:i + per] for i in range(0, len(items), per)]
            text = ("," + case["eol"] + " ").join(", ".join(r) for r in rows)
            L.append(key + eq + "{" + (case["eol"] if case["wrap"] > 1 else "") + text + ("}" if case["wrap"] != 3 else case["eol"] + "}"))
        if case["blank"]:
            L.append("")
    f = ctx.path("a.hdr")
    with open(f, "w", newline="") as o:
        o.write(case["eol"].join(L) + (case["eol"] if case["last"] else ""))

    def compare(got, what):
        # names of entries mean the same whatever their case
        got = {k.lower(): v for k, v in got.items()}
        ctx.equal(sorted(got), sorted(want), what + ": entries found")
        for k, v in want.items():
            if isinstance(v, np.ndarray):
                ctx.equal_arrays(got[k], v, what + ": " + k)
            elif isinstance(v, list):
                # text in braces: the same items in the same order
                t = str(got[k]).strip().lstrip("{").rstrip("}")
                ctx.equal([" ".join(p.split()) for p in t.split(",")], [" ".join(p.split()) for p in v], what + ": " + k)
            else:
                ctx.equal(got[k], v, what + ": " + k)
                ctx.check(type(got[k]) is type(v), what + ": type of " + k)
    first = eu.read_envi_header(f)
    compare(first, "read")
    f2 = ctx.path("b.hdr")
    eu.write_envi_header(first, f2)
    compare(eu.read_envi_header(f2), "written and read again")
    ctx.nontrivial(len(want) > 2 and braces > 0)


@sub(P, "types", fixed(code=st.sampled_from(sorted(TYPES)), as_text=st.booleans()), quick=30, rule="always")
def types(case, ctx):
    """data type codes are those of the ENVI format, both ways"""
    from resippy.utils import envi_utils as eu
    c = case["code"]
    ctx.equal(np.dtype(eu.envi_dtype_to_numpy_dtype(str(c) if case["as_text"] else c)), np.dtype(TYPES[c]), "type of code %d" % c)
    ctx.equal(eu.numpy_dtype_to_envi_dtype(np.dtype(TYPES[c])), c, "code of " + TYPES[c])
    ctx.equal(eu.numpy_dtype_to_envi_dtype(getattr(np, TYPES[c])), c, "code of " + TYPES[c])
    ctx.nontrivial()


def wide(k):
    """the same case with an image of hundreds of lines and samples, or tens of bands"""
    s = k["seed"] % 3
    return {**k, "ny": k["ny"] * (37 if s != 2 else 3), "nx": k["nx"] * (41 if s != 2 else 3), "nb": k["nb"] * (1 if s else 5) * (20 if s == 2 else 1)}


sub(P, "large_image_round_trip", img.map(wide), quick=40, rule="more than one band, row and column")(image_round_trip)
sub(P, "large_foreign_image", foreign.map(wide), quick=40, rule="another interleave than bil, a header offset or big-endian data")(foreign_image)
sub(P, "long_header", hdr.map(lambda k: {**k, "wrap": k["wrap"] if k["wrap"] < 2 else 3, "entries": [(e[0], e[1] * 71, e[2], e[3]) for e in k["entries"]]}), quick=60, rule="at least three entries, one of them in braces")(header)
again(P, "image_round_trip", ("stem", "ext", "hdr", "ny", "nx", "nb"), 60, always=True)
again(P, "foreign_image", ("stem", "hdr",), 60, always=True)
again(P, "header", (), 60)
