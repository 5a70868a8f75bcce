"""Small overhead images: a camera, the terrain it looks at, and pixel data, built as real image objects."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams, dems
from harness.gens import fixed, q, rng, seeds

DT = ["uint8", "int16", "uint16", "float32", "float64"]


def small(c, nx, ny):
    """the same camera with a small detector"""
    c = dict(c)
    c["nx"], c["ny"] = nx, ny
    if c["kind"] == "rpc":
        c["samp_off"], c["line_off"] = nx / 2.0, ny / 2.0
        c["samp_scale"], c["line_scale"] = nx / 2.0, ny / 2.0
    if c["kind"] in ("pinhole",):
        # square-ish footprint pixels are not required, degenerate ones are not interesting
        c["aspect"] = min(max(c["aspect"], 0.5), 2.0)
    return c


def scene_case(kinds=None, nb_max=4):
    cam = st.one_of(cams.pinhole_case(), cams.pix4d_case(), cams.opencv_case(), cams.rpc_case()) if kinds is None else kinds
    return fixed(cam=cam, nx=st.integers(5, 40), ny=st.integers(5, 40), nb=st.integers(1, nb_max), dtype=st.sampled_from(DT),
                 iseed=seeds(), content=st.sampled_from(["smooth", "noise", "ids"]))


def unpack(s):
    return small(s["cam"], s["nx"], s["ny"])


def pixels_of(s, c):
    """(ny, nx, nb) image; values stay within 1..250 so that every data type holds them and 0 can mean no data"""
    ny, nx, nb = c["ny"], c["nx"], s["nb"]
    g = rng(s["iseed"])
    if s["content"] == "noise":
        a = g.uniform(1, 250, (ny, nx, nb))
    elif s["content"] == "ids":
        a = (np.arange(ny * nx).reshape(ny, nx, 1) * 7 + np.arange(nb) * 31) % 249 + 1.0
    else:
        jj, ii = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny)
        a = np.stack([125 + 60 * np.sin(g.uniform(-3, 3) * jj + g.uniform(-3, 3) * ii + g.uniform(0, 6)) +
                      g.uniform(-50, 50) * (jj - 0.5) for _ in range(nb)], axis=2)
    return a.astype(s["dtype"])


def surface(c, sc, rel):
    from checks.c09 import scene
    return scene(c, sc, rel)


def corners_native(c, S, ref=None):
    """native coordinates of the four corners and edge midpoints of the frame on the terrain's mean level"""
    ref = ref or cams.reference(c)
    fx = np.array([0, .5, 1, 1, 1, .5, 0, 0]) * (c["nx"] - 1)
    fy = np.array([0, 0, 0, .5, 1, 1, 1, .5]) * (c["ny"] - 1)
    return invert(ref, c, S, fx, fy, np.zeros(8) + S.z0)


def invert(ref, c, S, x, y, z):
    """ground position of pixels at known height, by Newton's method on the reference model"""
    if c["kind"] == "geotiff":
        return ref.ground(x, y)
    X, Y = np.zeros(len(x)) + S.cx, np.zeros(len(x)) + S.cy
    hx = 1e-2 / S.per_x
    for _ in range(30):
        px, py = ref.project(X, Y, z)
        J = np.moveaxis(cams.jacobian(ref, X, Y, z, hx, hx), 2, 0)
        step = np.linalg.solve(J, np.stack([x - px, y - py], axis=1)[:, :, None])[:, :, 0]
        X, Y = X + step[:, 0], Y + step[:, 1]
        if np.abs(step).max() < 1e-6 / S.per_x:
            break
    return X, Y


SOURCES = ["array", "file", "separate_bands", "edited_file"]


def make_image(s, c, data, ctx, source, nodata=None):
    """a real image object over `data` with the real camera"""
    from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
    from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
    from harness.rasters import write_gtiff
    pc = cams.build(c)
    if source == "separate_bands":
        pc = separate(c, s["nb"])
    if source in ("file", "edited_file"):
        f = ctx.path("camera.tif")
        # an image edited in memory shows what it was edited to, whatever the file holds
        write_gtiff(f, data if source == "file" else np.roll(data[::-1, ::-1], 1, 0) // 2 + 1, [0, 1, 0, 0, 0, -1], None, nodata)
        img = PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(f, pc)
        if source == "edited_file":
            img.set_image_data(data.copy())
        return img
    md = PhysicalCameraMetadata()
    md.set_npix_x(c["nx"])
    md.set_npix_y(c["ny"])
    md.set_n_bands(data.shape[2])
    md.set_nodata_val(nodata)
    return PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(data.copy(), md, pc)


def band_case(c, b):
    """camera of band b of a sensor whose bands look in slightly different directions"""
    c = dict(c)
    if c["kind"] == "rpc":
        c["samp_off"] += 0.7 * b
        c["line_off"] -= 0.4 * b
    else:
        c["om"] += 0.04 * c["half_fov"] * b
        c["ph"] -= 0.03 * c["half_fov"] * b
    return c


def separate(c, nb):
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model \
        import EarthOverheadSensorModel

    class Sensor(EarthOverheadSensorModel):
        def bands_coregistered(self):
            return False

    m = Sensor()
    m.set_point_calcs([cams.build(band_case(c, b)) for b in range(nb)])
    m.set_projection(cams.proj_of(c))
    pc0 = m.get_point_calc(0)
    m.set_approximate_lon_lat_center(*pc0.get_approximate_lon_lat_center())
    return m


def metres(c):
    return 111000.0 if cams.proj_of(c).crs.is_geographic else 1.0
