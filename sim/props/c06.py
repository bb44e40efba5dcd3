"""C06: co-representations of magnetic groups for spinors."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 15000, "thorough": 175000}
RULE = (
    "one run = one magnetic space group or magnetic point group (all four types) in some presentation, or one "
    "recorded magnetic crystal, one k-vector, one method and one environment; non-trivial when the little group "
    "has a time-reversal operation; distinct by (type, order, dimensions, indicators, k class, method, API) and digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.corep", "spgrep.spinor", "spgrep.irreps", "spgrep.group", "spgrep.transform", "LAPACK"],
    "stub": C.SHIMS + [C.RECORDED_PEER],
}
ASSUMPTIONS = ["bases whose rotation entries are -1, 0 or 1 for the point-group and primitive entry points"]


def gen(rng, i):
    api = ["pg", "prim", "prim", "small", "conv"][rng.integers(5)]
    plan = {"api": api, "method": C.method(rng), "opts": C.options(rng), "lat": int(rng.integers(1, 1 << 30)),
            "world": W.gen_world(rng, peer=api == "conv")}
    if api == "conv":
        plan["rec"] = int(rng.integers(len(W.mag_records())))
        rec = W.mag_records()[plan["rec"]]
        plan["k"] = W.gen_k(rng, None)
        if rng.random() < 0.5:
            plan["k"] = W.gen_k(rng, np.array(rec["rotations"]), np.array(rec["time_reversals"]))
        plan["reciprocal"] = int(rng.integers(1, 1 << 30)) if rng.random() < 0.25 else None
        if rng.random() < 0.15:
            plan["world"]["mag_symprec"] = float([1e-3, 1e-2, 1e-1][rng.integers(3)])
        return plan
    ops = W.gen_mops_spec(rng)
    if plan["method"] == "random" and rng.random() < 0.3:
        W.skew(rng, ops)
    if api == "pg":
        ops["origin"] = ops["lshift"] = None
        if rng.random() < 0.5:
            ops.update(conv=True, M=None, skew=None)
    plan["ops"] = ops
    plan["pres"] = W.gen_presentation(rng)
    if api != "pg":
        R, T, q = W.build_ops(ops)
        plan["k"] = W.gen_k(rng, R, q)
    return plan


def pg_ops(ops):
    if ops.get("conv"):
        R, _, q = W.mdb(ops["uni"])
    else:
        R, _, q = W.build_ops(dict(ops, perm=None))
    idx = C.distinct_rotations(R, q)
    R, q = R[idx], q[idx]
    if ops.get("perm"):
        p = seams.sub_rng("perm", ops["perm"]).permutation(len(R))
        R, q = R[p], q[p]
    return R, q


def check(coreps, ind, z, U, al, mp, L, R, T, q, k, exp, npt, tol, conv=False):
    mp = C.check_mapping(mp, exp)
    r, t, s = R[mp], T[mp], q[mp]
    n = len(mp)
    O.check_shape(coreps, n)
    al = np.asarray(al)
    need(al.shape == (n,) and np.array_equal(al.astype(bool), s == 1), "wrong-anti-linear", "flags differ from time-reversal parts")
    tab, TT = O.op_table(r, t, s)
    need((tab >= 0).all(), "not-a-group", "little group is not closed")
    O.check_spin(L, r, U, z, tab, tr=s, tol=max(tol, 1e-5) if conv else tol)
    ph = O.translation_phase(k, TT, t, tab)
    O.check_law(coreps, tab, ph * z, tol, tr=s)
    for i in O.pure_translations(r, t, s):
        want = np.exp(-2j * np.pi * np.dot(k, t[i]))
        for a, x in enumerate(coreps):
            e = np.abs(np.asarray(x)[i] - want * np.eye(np.asarray(x).shape[1])).max()
            need(e < tol, "wrong-translation-phase", f"coreps[{a}] at translation {t[i]}: error {e:.2e}")
    O.check_coreps(coreps, ind, s, npt, tol)


def run(plan, ctx):
    import spgrep
    from spgrep.corep import enumerate_spinor_small_corepresentations
    from spgrep.group import get_little_group

    api = plan["api"]
    tol = C.tol_of(plan["opts"])
    if api == "conv":
        rec = W.mag_records()[plan["rec"]]
        L, pos, num, mag = (np.array(rec[x]) for x in ("lattice", "positions", "numbers", "magmoms"))
        k = np.array(plan["k"])
        kw, kin = dict(plan["opts"]), k
        if plan.get("reciprocal"):
            from .c02 import reciprocal_of

            B = reciprocal_of(plan["reciprocal"], L)
            kw["reciprocal_lattice"] = B
            kin = k @ np.linalg.inv(L).T @ np.linalg.inv(B)
        if plan["world"].get("mag_symprec"):
            kw["symprec"] = plan["world"]["mag_symprec"]
            ctx.fault("crystal.distorted")
        w = ctx.world(plan["world"], mag=rec)
        with w:
            coreps, z, U, al, R, T, q, mp = ctx.call(
                spgrep.get_spacegroup_spinor_irreps, L.copy(), pos.copy(), num.copy(), magmoms=mag.copy(), kpoint=kin,
                method=plan["method"], **kw
            )
        R, T, q = np.asarray(R), np.asarray(T), np.asarray(q).astype(int)
        O.check_operations(R, T, {x: np.array(rec[x]) for x in ("rotations", "translations", "time_reversals")}, q)
        npt = len(O.pure_translations(R, T, q))
        exp = O.stabilizer(R, T, k, q, tol=1e-7)
        check(coreps, None, z, U, al, mp, L, R, T, q, k, exp, npt, max(tol, 3e-6), conv=True)
        typ = rec["type"]
        s = q[np.asarray(mp)]
        ind = ()
    else:
        if api == "pg":
            R, q = pg_ops(plan["ops"])
            n = len(R)
            T, k, exp = np.zeros((n, 3)), np.zeros(3), list(range(n))
        else:
            R, T, q = W.build_ops(plan["ops"])
            k = np.array(plan["k"])
            exp = O.stabilizer(R, T, k, q, primitive=True, tol=5e-8)
        L = W.lattice_for(R, plan["lat"])
        a, b, kk, qq = W.present(plan["pres"], R, T, k, q)
        w = ctx.world(plan["world"])
        with w:
            if api == "pg":
                coreps, ind, z, U, al = ctx.call(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L.copy(), a, qq, method=plan["method"], **plan["opts"])
                mp = np.array(exp)
            elif api == "prim":
                coreps, ind, z, U, al, mp = ctx.call(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L.copy(), a, b, qq, kk, method=plan["method"], **plan["opts"])
            else:
                mp = np.array(exp)
                coreps, ind, z, U, al = ctx.call(enumerate_spinor_small_corepresentations, L.copy(), R[mp], T[mp], q[mp], kk, method=plan["method"], **plan["opts"])
        if api == "pg":
            # group of rotations alone: multiplication closes without translations
            check_pg(coreps, ind, z, U, al, L, R, q, tol)
        else:
            check(coreps, list(ind), z, U, al, mp, L, R, T, q, k, exp, 1, tol)
        typ = W.msg_type(plan["ops"]["uni"])
        s = q[np.asarray(mp)]
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars([np.asarray(x)[s == 0] for x in coreps])], np.round(U, 4))
    ctx.cover(typ, len(exp), C.dims(coreps), tuple(int(x) for x in ind), C.kclass(k), plan["method"], api, nontrivial=bool(s.any()))


def check_pg(coreps, ind, z, U, al, L, R, q, tol):
    n = len(R)
    O.check_shape(coreps, n)
    al = np.asarray(al)
    need(al.shape == (n,) and np.array_equal(al.astype(bool), q == 1), "wrong-anti-linear", "flags differ from time-reversal parts")
    tab = O.rot_table(R, q)
    O.check_spin(L, R, U, z, tab, tr=q, tol=tol)
    O.check_law(coreps, tab, np.asarray(z), tol, tr=q)
    O.check_coreps(coreps, list(ind), q, 1, tol)


def shrink(plan):
    yield from C.shrink_spec(plan)
    if plan["method"] != "Neto" and not (plan.get("ops") or {}).get("skew"):
        yield dict(plan, method="Neto")
