"""C06  camera on a fixture: rigid-body composition in any units."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, results_stay, sub
from harness.gens import fixed, q
from checks.c02 import ANG_UNITS, LEN_UNITS
from checks.c05 import ORDERS, ang

P = "C06"
results_stay(P)
lu = st.sampled_from(sorted(LEN_UNITS))
au = st.sampled_from(sorted(ANG_UNITS))
xyz = fixed(x=q(-50, 50), y=q(-50, 50), z=q(-50, 50))
rpy = fixed(r=ang, p=ang, y=ang)

pose = fixed(fix=fixed(x=q(-1e6, 1e6), y=q(-1e7, 1e7), z=q(-100, 9000)), fa=rpy, fo=st.sampled_from(ORDERS), fu=st.tuples(au, au, au),
             rel=xyz, ru=st.tuples(lu, lu, lu), ba=rpy, bo=st.sampled_from(ORDERS), bu=st.tuples(au, au, au),
             direct=st.booleans())


def build(case):
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
    f = FixturedCamera()
    f.set_fixture_xyz(case["fix"]["x"], case["fix"]["y"], case["fix"]["z"])
    fa, fu, ba, bu, ru = case["fa"], case["fu"], case["ba"], case["bu"], case["ru"]
    Mf = cams.rot(case["fo"], fa["r"], fa["p"], fa["y"])
    Mb = cams.rot(case["bo"], ba["r"], ba["p"], ba["y"])
    if case["direct"]:
        f.set_fixture_orientation(Mf.copy())
        f.set_boresight_matrix(Mb.copy())
    else:
        f.set_fixture_orientation_by_roll_pitch_yaw(
            fa["r"] / ANG_UNITS[fu[0]], fa["p"] / ANG_UNITS[fu[1]], fa["y"] / ANG_UNITS[fu[2]], roll_units=fu[0],
            pitch_units=fu[1], yaw_units=fu[2], order=case["fo"])
        f.set_boresight_matrix_from_camera_relative_rpy_params(
            ba["r"] / ANG_UNITS[bu[0]], ba["p"] / ANG_UNITS[bu[1]], ba["y"] / ANG_UNITS[bu[2]], roll_units=bu[0],
            pitch_units=bu[1], yaw_units=bu[2], order=case["bo"])
    r = case["rel"]
    f.set_relative_camera_xyz(r["x"] / LEN_UNITS[ru[0]], r["y"] / LEN_UNITS[ru[1]], r["z"] / LEN_UNITS[ru[2]],
                              x_units=ru[0], y_units=ru[1], z_units=ru[2])
    return f, Mf, Mb


@sub(P, "pose_composition", pose, quick=1000, rule="non-zero lever arm and non-zero fixture rotation")
def pose_composition(case, ctx):
    f, Mf, Mb = build(case)
    fx = np.array([case["fix"][k] for k in "xyz"])
    rel = np.array([case["rel"][k] for k in "xyz"])
    pos = np.array([float(v) for v in f.get_camera_absolute_xyz()])
    M = np.asarray(f.get_camera_absolute_M_matrix())
    ctx.equal(tuple(f.get_fixture_xyz()), tuple(fx), "fixture position")
    # the lever arm is fixed in the fixture's own axes: the fixture's rotation takes the world offset back to it
    ctx.close_to(pos, fx + Mf.T @ rel, "absolute camera position", rtol=1e-12, atol=1e-6)
    ctx.close_to(np.linalg.norm(pos - fx), np.linalg.norm(rel), "length of the lever arm", rtol=1e-6, atol=1e-6)
    ctx.close_to(M, Mb @ Mf, "absolute orientation", rtol=0, atol=1e-9)
    ctx.label(case["fo"], case["bo"])
    ctx.nontrivial(np.linalg.norm(rel) > 1e-3 and not np.allclose(Mf, np.eye(3)))


moves = fixed(first=pose, steps=st.lists(st.fixed_dictionaries({}, optional={
    "fix": fixed(x=q(-1e6, 1e6), y=q(-1e7, 1e7), z=q(-100, 9000)), "fa": rpy, "rel": xyz, "ba": rpy, "fo": st.sampled_from(ORDERS),
    "bo": st.sampled_from(ORDERS), "u": st.tuples(au, au, au), "lu": st.tuples(lu, lu, lu), "matrix": st.booleans(),
    "ask_only": st.booleans(), "near": st.sampled_from([-1, -3, -5, -6])}), min_size=1, max_size=8))


@sub(P, "moving_fixture", moves, quick=300, rule="at least one later change of pose")
def moving_fixture(case, ctx):
    """a history of re-posing: the camera always follows the latest fixture pose, lever arm and boresight"""
    f, Mf, Mb = build(case["first"])
    cur = dict(case["first"])
    for k, s in enumerate(case["steps"]):
        if s.get("ask_only"):
            s = {}
        if "near" in s:
            # a small change of what there was, as from one navigation record to the next
            s = {**s, **{n: {k: cur[n][k] + 10.0 ** s["near"] * (s[n][k] if n != "fix" else s[n][k] / 1e4) for k in s[n]} for n in ("fix", "fa", "rel", "ba") if n in s}}
        cur.update({n: s[n] for n in ("fix", "fa", "rel", "ba") if n in s})
        cur["fo"] = s.get("fo", cur["fo"])
        u, l, mat = s.get("u", ("radians",) * 3), s.get("lu", ("meters",) * 3), s.get("matrix", False)
        if "fix" in s:
            f.set_fixture_xyz(s["fix"]["x"], s["fix"]["y"], s["fix"]["z"])
        if "fa" in s:
            Mf = cams.rot(cur["fo"], s["fa"]["r"], s["fa"]["p"], s["fa"]["y"])
            if mat:
                f.set_fixture_orientation(Mf.copy())
            else:
                f.set_fixture_orientation_by_roll_pitch_yaw(
                    *(s["fa"][n] / ANG_UNITS[x] for n, x in zip("rpy", u)), roll_units=u[0], pitch_units=u[1], yaw_units=u[2],
                    order=cur["fo"])
        if "rel" in s:
            f.set_relative_camera_xyz(*(s["rel"][n] / LEN_UNITS[x] for n, x in zip("xyz", l)), x_units=l[0], y_units=l[1],
                                      z_units=l[2])
        if "ba" in s:
            bo = s.get("bo", "rpy")
            Mb = cams.rot(bo, s["ba"]["r"], s["ba"]["p"], s["ba"]["y"])
            if mat:
                f.set_boresight_matrix(Mb.copy())
            else:
                f.set_boresight_matrix_from_camera_relative_rpy_params(
                    *(s["ba"][n] / ANG_UNITS[x] for n, x in zip("rpy", u)), roll_units=u[0], pitch_units=u[1], yaw_units=u[2],
                    **({"order": bo} if "bo" in s else {}))
        fx = np.array([cur["fix"][n] for n in "xyz"])
        rel = np.array([cur["rel"][n] for n in "xyz"])
        ctx.equal(tuple(f.get_fixture_xyz()), tuple(fx), "fixture position after step %d" % k)
        ctx.close_to(np.array([float(v) for v in f.get_camera_absolute_xyz()]), fx + Mf.T @ rel,
                     "camera position after step %d" % k, rtol=1e-12, atol=1e-6)
        ctx.close_to(np.asarray(f.get_camera_absolute_M_matrix()), Mb @ Mf, "camera orientation after step %d" % k, rtol=0, atol=1e-9)
    ctx.nontrivial(any(s for s in case["steps"]))


two = fixed(a=pose, b=pose, order=st.booleans())


@sub(P, "two_fixtures", two, quick=150, rule="two cameras of different poses alive at once")
def two_fixtures(case, ctx):
    """one camera's pose never shows in another's"""
    made = [build(case["a"]), build(case["b"])]
    for (f, Mf, Mb), c in reversed(list(zip(made, (case["a"], case["b"])))):
        fx, rel = (np.array([c[n][k] for k in "xyz"]) for n in ("fix", "rel"))
        ctx.close_to(np.array([float(v) for v in f.get_camera_absolute_xyz()]), fx + Mf.T @ rel, "camera position", rtol=1e-12, atol=1e-6)
        ctx.close_to(np.asarray(f.get_camera_absolute_M_matrix()), Mb @ Mf, "camera orientation", rtol=0, atol=1e-9)
    ctx.nontrivial(case["a"] != case["b"])


# one use after another
again(P, "pose_composition", ("fa", "fo"), 80)
