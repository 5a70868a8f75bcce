"""Analytic elevation models, in the unit of the CRS they are asked in (no conversion, so any mistake in handing over
coordinates shows up as a wrong height)."""
import numpy as np
from hypothesis import strategies as st

from harness.gens import fixed, q


def surface_case():
    return fixed(kind=st.sampled_from(["plane", "waves", "ridge", "cliff", "flat"]), a=q(-1, 1), b=q(-1, 1),
                 phase=q(0, 6.28), w=q(0.5, 4.0), off=q(-0.8, 0.8), az=q(0, 6.28))


class Surface:
    """height(X, Y) around a centre, of horizontal size `size` and relief `relief` (both in metres), above z0"""

    def __init__(self, c, cx, cy, size, relief, z0, per_x=1.0, per_y=1.0):
        # per_x / per_y: metres per native unit
        self.c, self.cx, self.cy, self.size, self.relief, self.z0 = c, cx, cy, size, relief, z0
        self.per_x, self.per_y = per_x, per_y

    def __call__(self, X, Y):
        c = self.c
        u = (np.asarray(X, float) - self.cx) * self.per_x / self.size
        v = (np.asarray(Y, float) - self.cy) * self.per_y / self.size
        s = u * np.cos(c["az"]) + v * np.sin(c["az"])
        t = -u * np.sin(c["az"]) + v * np.cos(c["az"])
        if c["kind"] == "flat":
            h = np.zeros_like(s)
        elif c["kind"] == "plane":
            h = np.clip(0.5 * (c["a"] * u + c["b"] * v), -1, 1)
        elif c["kind"] == "waves":
            h = np.sin(c["w"] * 3 * s + c["phase"]) * np.cos(c["w"] * 2 * t)
        elif c["kind"] == "ridge":
            h = np.clip(1 - np.abs(s - c["off"]) * c["w"] * 2, 0, 1) * 2 - 1
        else:
            h = np.tanh((s - c["off"]) * c["w"] * 12)
        return self.z0 + h * self.relief

    def bounds(self):
        if self.c["kind"] == "flat":
            return self.z0, self.z0
        return self.z0 - self.relief, self.z0 + self.relief


def as_dem(surface, proj=None, lowest=None, highest=None):
    from resippy.photogrammetry.dem.abstract_dem import AbstractDem

    class AnalyticDem(AbstractDem):
        def __init__(self):
            super(AnalyticDem, self).__init__()
            self.asked = []

        def convert_reference(self, dst_fname, dst_epsg_code):
            raise NotImplementedError

        def get_elevations(self, world_x, world_y, world_proj=None):
            self.asked.append(None if world_proj is None else world_proj.srs)
            if world_proj is not None and proj is not None and world_proj.srs != proj.srs:
                from harness.rasters import transformer
                world_x, world_y = transformer(world_proj, proj).transform(
                    np.asarray(world_x, float), np.asarray(world_y, float))
            return surface(world_x, world_y)

        def get_highest_alt(self):
            return surface.bounds()[1] if highest is None else highest

        def get_lowest_alt(self):
            return surface.bounds()[0] if lowest is None else lowest

        def get_mean_alt(self):
            return sum(surface.bounds()) / 2.0

    d = AnalyticDem()
    d.set_projection(proj)
    return d
