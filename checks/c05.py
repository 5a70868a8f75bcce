"""C05  rotation matrices, angle recovery, boresight."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import cams
from harness.core import again, assume_note, results_stay, sub
from harness.gens import angle_deg, fixed, q

P = "C05"
results_stay(P)
assume_note(P, "the very angles are asked back for pitch strictly inside +-90 degrees, where they are unique; elsewhere the "
               "same rotation")

ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]
small = st.sampled_from([0.0, 1e-9, -1e-9, 1e-8, 3e-8, 1e-5, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4])
ang = st.one_of(q(-math.pi, math.pi), q(-math.pi, math.pi), small)
turns = st.one_of(ang, q(-30.0, 30.0))           # several turns either way

three = fixed(om=turns, ph=turns, ka=turns, order=st.sampled_from(ORDERS))


@sub(P, "matrix_is_the_stated_rotation", three, quick=1500, rule="all three angles non-zero")
def matrix(case, ctx):
    from resippy.utils import photogrammetry_utils as pu
    M = pu.create_M_matrix(case["om"], case["ph"], case["ka"], order=case["order"])
    ctx.close_to(M, cams.rot(case["order"], case["om"], case["ph"], case["ka"]), "rotation matrix, order " + case["order"],
                 rtol=0, atol=1e-12)
    ctx.close_to(M @ M.T, np.eye(3), "orthonormality", rtol=0, atol=1e-12)
    ctx.close_to(np.linalg.det(M), 1.0, "determinant", rtol=0, atol=1e-12)
    if case["order"] == "rpy":
        ctx.equal_arrays(pu.create_M_matrix(case["om"], case["ph"], case["ka"]), M, "default order")
    ctx.label(case["order"])
    ctx.nontrivial(0.0 not in (case["om"], case["ph"], case["ka"]))


@sub(P, "unknown_orders_are_refused", fixed(om=ang, ph=ang, ka=ang, order=st.one_of(st.text(alphabet=st.sampled_from(list("rpyRPYokx ")), max_size=4), st.none(), st.integers(0, 3))), quick=200, rule="not the name of an order")
def unknown(case, ctx):
    """whatever is passed as an order: either a rotation matrix or an error, never something else"""
    from resippy.utils import photogrammetry_utils as pu
    o = case["order"]
    try:
        M = pu.create_M_matrix(case["om"], case["ph"], case["ka"], order=o)
    except Exception:       # noqa
        ctx.check(o not in ORDERS, "the supported order %r is refused" % (o,))
    else:
        ctx.close_to(np.asarray(M) @ np.asarray(M).T, np.eye(3), "orthonormality of the matrix of order %r" % (o,), rtol=0, atol=1e-12)
    ctx.nontrivial(o not in ORDERS)


rec = fixed(om=ang, ph=st.one_of(q(-1.55, 1.55), st.sampled_from([0.0, 1e-9, -1e-9, 0.5, -0.5, 1.5])), ka=ang)


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


@sub(P, "angles_recovered", rec, quick=1500, rule="at least one angle near 0, +-90 or +-180 degrees, or all three generic")
def angles(case, ctx):
    from resippy.utils import photogrammetry_utils as pu
    M = cams.rot("rpy", case["om"], case["ph"], case["ka"])
    om, ph, ka = pu.solve_for_omega_phi_kappa(M.copy())
    ctx.check(all(np.isfinite([om, ph, ka])), "recovered angles %r are not numbers" % ((om, ph, ka),))
    tol = 1e-8 / math.cos(case["ph"]) ** 2
    ctx.check(abs(ph - case["ph"]) <= tol, "pitch %r recovered as %r" % (case["ph"], ph))
    ctx.check(abs(wrap(om - case["om"])) <= tol, "roll %r recovered as %r" % (case["om"], om))
    ctx.check(abs(wrap(ka - case["ka"])) <= tol, "yaw %r recovered as %r" % (case["ka"], ka))
    # the matrix the library itself builds gives the same answer
    om2, ph2, ka2 = pu.solve_for_omega_phi_kappa(pu.create_M_matrix(case["om"], case["ph"], case["ka"]))
    ctx.close_to(cams.rot("rpy", om2, ph2, ka2), M, "matrix rebuilt from the recovered angles", rtol=0, atol=1e-7)
    ctx.nontrivial()


def exact(o, p, k):
    """a rotation matrix with exact zeros and ones where the angles are whole quarter turns"""
    q4 = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]

    def el(axis, a):
        c, s = q4[a] if isinstance(a, int) else (math.cos(a), math.sin(a))
        return {"r": np.array([[1, 0, 0], [0, c, s], [0, -s, c]]), "p": np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]]),
                "y": np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])}[axis]

    return el("y", k) @ el("p", p) @ el("r", o)


quarter = st.integers(0, 3)
steep = fixed(om=st.one_of(ang, quarter), ph=st.one_of(st.sampled_from([1, 3]), quarter, q(-math.pi, math.pi),
              st.sampled_from([math.pi / 2, -math.pi / 2, 1.5707963, -1.5707963, 1.57079632679])), ka=st.one_of(ang, quarter))


@sub(P, "rotation_recovered_at_any_pitch", steep, quick=600, rule="pitch of 90 degrees, or beyond")
def steep_angles(case, ctx):
    """where the angles are not unique (pitch of 90 degrees, or beyond) they still describe the same rotation"""
    from resippy.utils import photogrammetry_utils as pu
    M = exact(case["om"], case["ph"], case["ka"])
    om, ph, ka = pu.solve_for_omega_phi_kappa(M.copy())
    ctx.check(all(np.isfinite([om, ph, ka])), "recovered angles %r are not numbers" % ((om, ph, ka),))
    ctx.close_to(cams.rot("rpy", om, ph, ka), M, "rotation described by the recovered angles", rtol=0, atol=1e-6)
    ctx.nontrivial(abs(M[2, 0]) > 0.999 or (isinstance(case["ph"], float) and abs(case["ph"]) > math.pi / 2))


bore = fixed(a=fixed(om=ang, ph=ang, ka=ang), b=fixed(om=ang, ph=ang, ka=ang))


@sub(P, "boresight_offsets", bore, quick=500, rule="two different orientations")
def boresight(case, ctx):
    from resippy.utils import photogrammetry_utils as pu
    A = cams.rot("rpy", case["a"]["om"], case["a"]["ph"], case["a"]["ka"])
    B = cams.rot("rpy", case["b"]["om"], case["b"]["ph"], case["b"]["ka"])
    off = pu.solve_for_boresight_angle_offsets(A.copy(), B.copy())
    ctx.close_to(A @ off, B, "rough orientation corrected by the offsets", rtol=0, atol=1e-10)
    ctx.close_to(off @ off.T, np.eye(3), "offset is a rotation", rtol=0, atol=1e-10)
    ctx.nontrivial(case["a"] != case["b"])


# one use after another
again(P, "matrix_is_the_stated_rotation", ("om", "ph", "ka"), 80)
again(P, "angles_recovered", ("om",), 60)
again(P, "rotation_recovered_at_any_pitch", (), 40)
again(P, "boresight_offsets", ("a",), 60)
