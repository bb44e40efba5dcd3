"""C05: spinor irreps."""

from __future__ import annotations

import numpy as np

from . import c02
from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 13500, "thorough": 225000}
RULE = (
    "one run = one crystal or point group with a lattice compatible with it in a random Cartesian orientation, one "
    "k-vector, one method, one API (point group, primitive, crystal) and one environment; non-trivial when the "
    "little group has more than one operation; distinct by (order, dimensions, k class, method, API) and digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.spinor", "spgrep.irreps", "spgrep.group", "spgrep.transform", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + ["spglib answers re-ordered / shifted by lattice vectors by the simulator"],
}
ASSUMPTIONS = ["bases whose rotation entries are -1, 0 or 1 for the point-group and primitive entry points"]


def gen(rng, i):
    api = ["pg", "prim", "prim", "small", "conv"][rng.integers(5)]
    plan = {"api": api, "method": C.method(rng), "opts": C.options(rng), "lat": int(rng.integers(1, 1 << 30))}
    if api == "conv":
        p = c02.gen(rng, i)
        plan.update({x: p[x] for x in ("cell", "k", "reciprocal", "distort", "world")})
        return plan
    ops = W.gen_ops_spec(rng)
    if plan["method"] == "random" and rng.random() < 0.3:
        W.skew(rng, ops)
    if api == "pg":
        ops["origin"] = ops["lshift"] = None
        if rng.random() < 0.5:
            ops.update(conv=True, M=None, skew=None)
    plan["ops"] = ops
    plan["pres"] = W.gen_presentation(rng)
    plan["world"] = W.gen_world(rng)
    if api != "pg":
        plan["k"] = W.gen_k(rng, W.build_ops(ops)[0])
    return plan


def run_conv(plan, ctx):
    import spgrep

    L, pos, num = W.build_cell(plan["cell"])
    L, pos = c02.distort(plan, L, pos, lattice=False)
    k = np.array(plan["k"])
    tol = max(2e-6, C.tol_of(plan["opts"]))
    w = ctx.world(plan["world"])
    kw = dict(plan["opts"])
    ref = C.cell_operations(L, pos, num)
    if plan.get("distort"):
        kw["symprec"] = plan["distort"]["symprec"]
        ref = C.cell_operations(L, pos, num, kw["symprec"])
        if ref is None:
            return
        ctx.fault("crystal.distorted")
    kin = k
    if plan.get("reciprocal"):
        B = c02.reciprocal_of(plan["reciprocal"], L)
        kw["reciprocal_lattice"] = B
        kin = k @ np.linalg.inv(L).T @ np.linalg.inv(B)
    with w:
        irreps, z, U, R, T, mp = ctx.call(
            spgrep.get_spacegroup_spinor_irreps, L.copy(), pos.copy(), num.copy(), kpoint=kin, method=plan["method"], **kw
        )
    R, T = np.asarray(R), np.asarray(T)
    O.check_operations(R, T, ref)
    exp = O.stabilizer(R, T, k, tol=1e-7)
    npt = len(O.pure_translations(R, T))
    check(irreps, z, U, mp, L, R, T, k, exp, npt, tol, conv=True)
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars(irreps)], np.round(U, 4))
    kind = "std" if plan["cell"]["M"] is None else str(plan["cell"]["M"])[:4]
    ctx.cover(len(exp), npt, C.dims(irreps), C.kclass(k), plan["method"], "conv", kind, nontrivial=len(exp) > 1)


def check(irreps, z, U, mp, L, R, T, k, exp, npt, tol, conv=False):
    mp = C.check_mapping(mp, exp)
    r, t = R[mp], T[mp]
    n = len(mp)
    O.check_shape(irreps, n)
    tab, TT = O.op_table(r, t)
    need((tab >= 0).all(), "not-a-group", "little group is not closed")
    O.check_spin(L, r, U, z, tab, tol=max(tol, 1e-5) if conv else tol)
    ph = O.translation_phase(k, TT, t, tab)
    O.check_law(irreps, tab, ph * z, tol)
    for i in O.pure_translations(r, t):
        want = np.exp(-2j * np.pi * np.dot(k, t[i]))
        for a, x in enumerate(irreps):
            e = np.abs(np.asarray(x)[i] - want * np.eye(np.asarray(x).shape[1])).max()
            need(e < tol, "wrong-translation-phase", f"irreps[{a}] at translation {t[i]}: error {e:.2e}")
    O.check_family(irreps, n, n // npt, tol)
    return tab


def run(plan, ctx):
    import spgrep
    from spgrep.spinor import enumerate_spinor_small_representations

    api = plan["api"]
    if api == "conv":
        return run_conv(plan, ctx)
    tol = C.tol_of(plan["opts"])
    w = ctx.world(plan["world"])
    if api == "pg":
        from .c04 import rotations

        R = rotations(plan["ops"])
        n = len(R)
        T, k, exp = np.zeros((n, 3)), np.zeros(3), list(range(n))
    else:
        R, T = W.build_ops(plan["ops"])
        k = np.array(plan["k"])
        exp = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    L = W.lattice_for(R, plan["lat"])
    a, b, kk = W.present(plan["pres"], R, T, k)
    with w:
        if api == "pg":
            irreps, z, U = ctx.call(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L.copy(), a, method=plan["method"], **plan["opts"])
            mp = np.array(exp)
        elif api == "prim":
            irreps, z, U, mp = ctx.call(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L.copy(), a, b, kpoint=kk, method=plan["method"], **plan["opts"])
        else:
            from spgrep.group import get_little_group

            lr, lt, mp = ctx.call(get_little_group, a, b, kk)
            irreps, z, U = ctx.call(enumerate_spinor_small_representations, L.copy(), lr, lt, kk, method=plan["method"], **plan["opts"])
    check(irreps, z, U, mp, L, R, T, k, exp, 1, tol)
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars(irreps)], np.round(U, 4))
    ctx.cover(len(exp), C.dims(irreps), C.kclass(k), plan["method"], api, nontrivial=len(exp) > 1)


def shrink(plan):
    if plan.get("distort"):
        yield dict(plan, distort=None)
    yield from C.shrink_spec(plan)
    if plan["method"] != "Neto" and not (plan.get("ops") or {}).get("skew"):
        yield dict(plan, method="Neto")
