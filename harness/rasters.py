"""Raster cases: CRS, geotransforms, no-data values; raw GDAL writers independent of resippy."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

from harness.gens import array_of, fixed, logq, q, seeds

GDAL_DT = {"uint8": 1, "uint16": 2, "int16": 3, "uint32": 4, "int32": 5, "float32": 6, "float64": 7, "complex64": 10, "complex128": 11, "uint64": 12, "int64": 13, "int8": 14}


_TRANSFORMERS = {}


def transformer(src, dst):
    """a pyproj transformer between two Proj objects (creating one is slow)"""
    from pyproj import Transformer
    key = (src.srs, dst.srs)
    if key not in _TRANSFORMERS:
        if len(_TRANSFORMERS) > 500:
            _TRANSFORMERS.clear()
        _TRANSFORMERS[key] = Transformer.from_proj(src, dst, always_xy=True)
    return _TRANSFORMERS[key]


# further CRSs without a datum shift to WGS 84: feet, conic, azimuthal, polar, cylindrical; box of origins in their own units
OTHER = {2227: (5.6e6, 6.9e6, 1.8e6, 2.6e6), 3435: (8e5, 1.3e6, 6e5, 2.2e6), 5070: (-2e6, 2e6, 4e5, 3e6), 3413: (-2.5e6, 2.5e6, -2.5e6, 2.5e6),
         3031: (-2.5e6, 2.5e6, -2.5e6, 2.5e6), 2154: (2e5, 1.1e6, 6.1e6, 7.1e6), 2193: (1.2e6, 2e6, 4.8e6, 6.1e6), 3035: (2.6e6, 6e6, 1.6e6, 5e6),
         26915: (3e5, 7e5, 3e6, 5.5e6), 6933: (-1.5e7, 1.5e7, -6e6, 6e6), 4269: None}


def crs_strategy(other=True):
    return st.one_of(*([fixed(kind=st.just("epsg"), code=st.sampled_from(sorted(OTHER)))] if other else []),
        st.just({"kind": "4326"}), st.just({"kind": "3857"}),
        fixed(kind=st.just("utm"), zone=st.integers(1, 60), south=st.booleans()),
        fixed(kind=st.just("epsg_utm"), zone=st.integers(1, 60), south=st.booleans()))


def make_proj(c):
    from pyproj import Proj
    from resippy.photogrammetry import crs_defs
    if c["kind"] == "4326":
        return crs_defs.PROJ_4326
    if c["kind"] == "3857":
        return crs_defs.PROJ_3857
    if c["kind"] == "utm":
        return Proj(proj="utm", zone=c["zone"], south=c["south"], datum="WGS84", preserve_units=True)
    if c["kind"] == "epsg":
        return _other(c["code"])
    return Proj("epsg:%d" % ((32700 if c["south"] else 32600) + c["zone"]), preserve_units=True)


def _other(code):
    from osgeo import osr
    from pyproj import Proj
    if code not in _OTHER:
        s = osr.SpatialReference()
        s.ImportFromEPSG(code)
        _OTHER[code] = Proj(s.ExportToProj4(), preserve_units=True)
    return _OTHER[code]


_OTHER = {}


def epsg(c):
    if c["kind"] == "epsg":
        return c["code"]
    if c["kind"] in ("4326", "3857"):
        return int(c["kind"])
    return (32700 if c["south"] else 32600) + c["zone"]


def wkt(c):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg(c))
    return s.ExportToWkt()


def geot_strategy(rotated=True):
    return fixed(u=q(0, 1), v=q(0, 1), gx=logq(0.02, 200.0), gy=logq(0.02, 200.0),
                 rx=q(-0.5, 0.5) if rotated else st.just(0.0), ry=q(-0.5, 0.5) if rotated else st.just(0.0),
                 north_up=st.booleans() if rotated else st.just(True))


def geot(g, crs):
    """geotransform whose origin is valid in the CRS"""
    if crs["kind"] == "4326" or crs == {"kind": "epsg", "code": 4269}:
        s, x0, y0 = 1e-5, -170 + 340 * g["u"], -75 + 150 * g["v"]
    elif crs["kind"] == "3857":
        s, x0, y0 = 1.0, -1.8e7 + 3.6e7 * g["u"], -1e7 + 2e7 * g["v"]
    elif crs["kind"] == "epsg":
        b = OTHER[crs["code"]]
        s, x0, y0 = 1.0, b[0] + (b[1] - b[0]) * g["u"], b[2] + (b[3] - b[2]) * g["v"]
    else:
        s, x0 = 1.0, 3e5 + 4e5 * g["u"]
        y0 = (2e6 + 7e6 * g["v"]) if crs["south"] else (1e5 + 8e6 * g["v"])
    gx, gy = g["gx"] * s, -g["gy"] * s
    if g["north_up"]:
        return [x0, gx, 0.0, y0, 0.0, gy]
    return [x0, gx, g["rx"] * gx, y0, g["ry"] * gy, gy]


def nodata_strategy(dtype):
    opts = [None, 0, 1, 77]
    dt = np.dtype(dtype)
    if dt.kind == "c":
        opts += [-9999.0]
    elif dt.itemsize == 8 and dt.kind in "iu":
        opts += [2 ** 40]
    elif dt.kind == "f":
        opts += [-9999.0, -9999.5, 0.25, -3.4028234663852886e38, float("nan"), float(np.float32(1e30))]
    else:
        i = np.iinfo(dt)
        opts += [int(i.max), int(i.min)]
        if i.min < -9999:
            opts += [-1, -9999]
    return st.sampled_from(opts)


def apply_affine(g, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5]


def write_gtiff(fname, arr, gt, wkt_str, nodata=None, opts=(), driver="GTiff"):
    from osgeo import gdal
    a = arr if arr.ndim == 3 else arr[:, :, None]
    ds = gdal.GetDriverByName(driver).Create(fname, a.shape[1], a.shape[0], a.shape[2], GDAL_DT[str(a.dtype)], list(opts))
    ds.SetGeoTransform([float(v) for v in gt])
    if wkt_str:
        ds.SetProjection(wkt_str)
    for b in range(a.shape[2]):
        # before the pixels: GDAL otherwise leaves out uncompressed bands of zeros, which are then read as no-data
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(int(nodata) if a.dtype.kind in "iu" and a.dtype.itemsize == 8 else float(nodata))
        ds.GetRasterBand(b + 1).WriteArray(np.ascontiguousarray(a[:, :, b]))
    ds.FlushCache()
    return ds if driver == "MEM" else None


def read_gtiff(fname):
    from osgeo import gdal
    ds = gdal.Open(fname)
    if ds is None:
        return None
    a = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)], axis=2)
    out = dict(data=a, geot=list(ds.GetGeoTransform()), wkt=ds.GetProjection(),
               nodata=[ds.GetRasterBand(b + 1).GetNoDataValue() for b in range(ds.RasterCount)])
    ds = None
    return out


def same_nodata(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b


@functools.lru_cache(200)
def _to_lonlat(text):
    from pyproj import CRS, Transformer
    return Transformer.from_crs(CRS.from_user_input(text), "EPSG:4326", always_xy=True)


def same_place(wkt_a, crs, gt, ctx, what):
    """the CRS recorded in wkt_a puts this raster's origin at the same longitude / latitude as crs does"""
    a, b = _to_lonlat(wkt_a), _to_lonlat("EPSG:%d" % epsg(crs))
    pa = a.transform(gt[0], gt[3])
    pb = b.transform(gt[0], gt[3])
    ctx.close_to(pa, pb, what, rtol=0, atol=1e-7)
