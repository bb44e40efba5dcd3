"""C17: bookkeeping of operations: tables, little groups, cosets, primitive cells, chains."""

from __future__ import annotations

import numpy as np

from .. import calls
from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 26000, "thorough": 250000}
RULE = (
    "one run = one tabulated group, magnetic or not, with its operations reordered, shifted by lattice vectors, moved to another "
    "origin or basis, with round-off on translations and k-vector, given to one bookkeeping function (multiplication table, "
    "little group, factor system, splitting by time reversal, change to the primitive cell, generating chain) and recomputed "
    "independently; non-trivial when the order exceeds 2; distinct by function, order, presentation and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.group", "spgrep.transform", "spgrep.pointgroup", "spgrep.representation", "spgrep.spinor", "spglib.get_pointgroup", "spglib.get_spacegroup_type"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = ["generating chains: bases whose rotation entries are -1, 0 or 1"]
KINDS = ["table", "little", "mlittle", "factor", "split", "prim", "prim", "chain", "regular", "spin", "mspin"]


def gen(rng, i):
    kind = KINDS[rng.integers(len(KINDS))]
    plan = {"kind": kind, "noise": float(10 ** rng.uniform(-16, -10)) if rng.random() < 0.5 else 0.0,
            "seed": int(rng.integers(1, 1 << 30)), "pres": W.gen_presentation(rng), "world": W.gen_world(rng)}
    if kind == "prim":
        plan["hall"] = int(rng.integers(1, 531))
        plan["k"] = W.gen_k(rng, W.db(plan["hall"])[0])
        plan["perm"] = int(rng.integers(1, 1 << 30)) if rng.random() < 0.6 else None
        return plan
    plan["ops"] = W.gen_mops_spec(rng) if kind in ("mlittle", "split", "mspin") or (kind == "table" and rng.random() < 0.5) else W.gen_ops_spec(rng)
    if kind != "chain" and rng.random() < 0.25:
        W.skew(rng, plan["ops"])
    b = W.build_ops(plan["ops"])
    plan["k"] = W.gen_k(rng, b[0], b[2] if len(b) == 3 else None)
    if kind == "split":
        plan["centred"] = bool(rng.random() < 0.4)  # operations of the conventional cell, centring translations included
    return plan


def run(plan, ctx):
    w = ctx.world(plan["world"])
    with w:
        globals()["run_" + plan["kind"]](plan, ctx)
    if plan["noise"]:
        ctx.fault("noise.translations")


def noisy(plan, x):
    if not plan["noise"]:
        return np.array(x, dtype=float)
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    return np.array(x, dtype=float) + plan["noise"] * g.uniform(-1, 1, np.shape(x))


def done(plan, ctx, n, *extra):
    o = plan.get("ops") or {}
    ctx.note(n, *extra)
    ctx.cover(plan["kind"], n, *(bool(o.get(x)) for x in ("M", "origin", "lshift", "perm")), *extra, nontrivial=n > 2)


def run_table(plan, ctx):
    from spgrep import group

    b = W.build_ops(plan["ops"])
    R, q = b[0], b[2] if len(b) == 3 else None
    if q is not None:
        idx = C.distinct_rotations(R, q)
        R, q = R[idx], q[idx]
        a, qq = W.present(plan["pres"], R, q=q)
        tab = np.asarray(ctx.call(group.get_cayley_table, a, qq))
    else:
        tab = np.asarray(ctx.call(group.get_cayley_table, W.present(plan["pres"], R)))
    want = O.rot_table(R, q)
    need(tab.shape == want.shape and np.array_equal(tab, want), "wrong-table", "multiplication table")
    e = ctx.call(group.get_identity_index, tab)
    need(int(e) == O.identity(want), "wrong-identity", f"{e}")
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    for a in set(int(x) for x in g.integers(0, len(R), 3)):
        v = int(ctx.call(group.get_inverse_index, tab, a))
        need(want[a, v] == int(e), "wrong-inverse", f"of operation {a}")
        m, x = 1, a
        while x != int(e):
            x, m = want[x, a], m + 1
        need(int(ctx.call(group.get_order, tab, a)) == m, "wrong-order", f"of operation {a}")
    done(plan, ctx, len(R), q is not None)


def _little(plan, ctx, magnetic):
    from spgrep import group

    b = W.build_ops(plan["ops"])
    R, T = b[0], b[1]
    q = b[2] if magnetic else None
    k = np.array(plan["k"])
    exp = O.stabilizer(R, T, k, q, primitive=True, tol=5e-8)
    kin = noisy(plan, k)
    if magnetic:
        a, t, kk, qq = W.present(plan["pres"], R, T, kin, q)
        out = ctx.call(group.get_little_group, a, t, kk, time_reversals=qq)
    else:
        a, t, kk = W.present(plan["pres"], R, T, kin)
        out = ctx.call(group.get_little_group, a, t, kk)
    lr, lt, mp = out
    mp = C.check_mapping(mp, exp)
    need(np.array_equal(lr, R[mp]), "wrong-operations", "rotations of the little group")
    need(np.abs(np.asarray(lt) - T[mp]).max() < 1e-12, "wrong-operations", "translations of the little group")
    done(plan, ctx, len(mp), C.kclass(k))


def run_little(plan, ctx):
    _little(plan, ctx, False)


def run_mlittle(plan, ctx):
    _little(plan, ctx, True)


def run_factor(plan, ctx):
    from spgrep import group

    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    e = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    r, t = R[e], T[e]
    a, tt, kk = W.present(plan["pres"], r, noisy(plan, t), k)
    mu = np.asarray(ctx.call(group.get_factor_system_from_little_group, a, tt, kk))
    res = np.einsum("iab,a->ib", r, k) - k
    want = np.exp(-2j * np.pi * np.rint(res) @ t.T)
    need(mu.shape == want.shape and np.abs(mu - want).max() < 1e-6, "wrong-factor-system", "")
    if len(r) <= 12:
        need(bool(ctx.call(group.check_cocycle_condition, a, mu)), "wrong-factor-system", "own cocycle check fails")
    done(plan, ctx, len(r), C.kclass(k))


def run_split(plan, ctx):
    from spgrep import group

    if plan.get("centred"):
        g = seams.sub_rng("centred", plan["seed"])
        R, T, q = W.mdb(plan["ops"]["uni"])
        j = g.permutation(len(R)) if plan["ops"].get("perm") else np.arange(len(R))
        R, q = R[j], q[j]
        T = T[j] + (g.integers(-2, 3, T.shape) if plan["ops"].get("lshift") else 0)
        if plan["ops"].get("origin") is not None:
            og = np.array(plan["ops"]["origin"])
            T = T + og - np.einsum("kij,j->ki", R, og)
    else:
        R, T, q = W.build_ops(plan["ops"])
    a, t, qq = W.present(plan["pres"], R, noisy(plan, T), q=q)
    out = ctx.call(group.decompose_by_maximal_space_subgroup, a, t, qq)
    if not q.any():
        need(out is None, "wrong-split", "group without time reversal was split")
        done(plan, ctx, len(R), 1)
        return
    need(isinstance(out, tuple) and len(out) == 3, "malformed-output", type(out).__name__)
    xs, tr, a0 = out
    n = len(R)
    need(sorted(int(x) for x in xs) == np.nonzero(q == 0)[0].tolist(), "wrong-split", "ordinary operations")
    need(0 <= int(a0) < n and q[int(a0)] == 1, "wrong-split", "representative is not a time-reversal operation")
    need(sorted(int(x) for x in tr) == np.nonzero(q == 1)[0].tolist(), "wrong-split", "time-reversal operations")
    for i, j in zip(xs, tr):
        need(np.array_equal(R[i] @ R[a0], R[j]), "wrong-split", f"rotation of operation {i} times representative")
        d = R[i] @ T[a0] + T[i] - T[j]
        need(np.abs(d - np.rint(d)).max() < 1e-6, "wrong-split", f"translation of operation {i} times representative")
    done(plan, ctx, n, W.msg_type(plan["ops"]["uni"]), bool(plan.get("centred")))


def crystal_system(R):
    """From the orders of the rotations alone."""
    n = [0] * 7
    for r in {x.tobytes(): x for x in R}.values():
        p = r * int(round(np.linalg.det(r)))
        m, x = 1, p
        while not np.array_equal(x, np.eye(3)):
            x, m = x @ p, m + 1
        n[m] += 1
    order = sum(n)
    if n[3] >= 8:
        return "cubic"
    if n[6]:
        return "hexagonal"
    if n[3]:
        return "trigonal"
    if n[4]:
        return "tetragonal"
    proper = order // 2 if any(np.array_equal(r, -np.eye(3)) for r in R) else order
    if proper == 4:
        return "orthorhombic"
    return "monoclinic" if n[2] else "triclinic"


def run_prim(plan, ctx):
    from spgrep import transform, utils

    R, T = W.db(plan["hall"])
    r2, t2 = ctx.call(utils.get_symmetry_from_hall_number, plan["hall"])
    need(np.array_equal(r2, R) and np.allclose(t2, T), "wrong-operations", "of the Hall number")
    if plan["perm"]:
        p = seams.sub_rng("c17", plan["perm"]).permutation(len(R))
        R, T = R[p], T[p]
    k = np.array(plan["k"])
    P = np.asarray(ctx.call(transform.get_primitive_transformation_matrix, plan["hall"]))
    pure = O.pure_translations(R, T)
    m = len(pure)
    s = ctx.call(transform.get_crystal_system, plan["hall"])
    need(s == crystal_system(R), "wrong-system", f"{s} for Hall number {plan['hall']}")
    need(abs(abs(np.linalg.det(P)) * m - 1) < 1e-9, "not-primitive", f"volume ratio {np.linalg.det(P):.4f}, {m} centrings")
    Pi = np.linalg.inv(P)
    x = Pi @ T[pure].T
    need(np.abs(x - np.rint(x)).max() < 1e-6, "not-primitive", "a centring is no lattice vector of the primitive cell")
    need(np.abs(Pi - np.rint(Pi)).max() < 1e-9, "not-primitive", "primitive cell does not tile the standard cell")
    a, t, kk = W.present(plan["pres"], R, noisy(plan, T), k)
    r, t, kp = ctx.call(transform.transform_symmetry_and_kpoint, P, a, t, kk)
    r, t = np.asarray(r), np.asarray(t)
    need(r.shape == R.shape and r.dtype.kind in "iu", "malformed-output", f"{r.shape} {r.dtype}")
    need(np.abs(r - np.array([Pi @ y @ P for y in R])).max() < 1e-9, "wrong-operations", "rotations")
    need(np.abs(t - T @ Pi.T).max() < 1e-7, "wrong-operations", "translations")
    need(np.abs(np.asarray(kp) - P.T @ k).max() < 1e-9, "wrong-kpoint", "")
    ur, ut, mp = ctx.call(transform.unique_primitive_symmetry, r, t)
    ur, ut, mp = np.asarray(ur), np.asarray(ut), np.asarray(mp)
    need(len(ur) * m == len(R) and len(ut) == len(ur) and len(mp) == len(R), "wrong-operations", f"{len(ur)} of {len(R)} with {m} centrings")
    need(len({y.tobytes() for y in ur}) == len(ur), "wrong-operations", "a rotation is listed twice")
    need(np.array_equal(ur[mp], r), "wrong-mapping", "rotation")
    d = ut[mp] - t
    need(np.abs(d - np.rint(d)).max() < 1e-6, "wrong-mapping", "translation")
    done(plan, ctx, len(R), m)


def run_chain(plan, ctx):
    from spgrep import pointgroup

    R, _ = W.build_ops(plan["ops"])
    gens = [int(x) for x in ctx.call(pointgroup.get_pointgroup_chain_generators, W.present(plan["pres"], R))]
    tab = O.rot_table(R)
    e = O.identity(tab)

    def span(gs):
        s = {e}
        front = [e]
        while front:
            x = front.pop()
            for g in gs:
                y = int(tab[x, g])
                if y not in s:
                    s.add(y)
                    front.append(y)
        return s

    need(all(0 <= g < len(R) for g in gens), "malformed-output", str(gens))
    G = span(gens)
    need(len(G) == len(R), "wrong-chain", f"generators span {len(G)} of {len(R)}")
    inv = {int(a): int(np.nonzero(tab[a] == e)[0][0]) for a in range(len(R))}
    for i in range(len(gens)):
        H = span(gens[i + 1 :])
        ratio = len(G) // len(H)
        need(len(G) % len(H) == 0 and ratio > 1, "wrong-chain", f"step {i}: {len(G)} to {len(H)}")
        need(all(int(tab[tab[a, h], inv[a]]) in H for a in G for h in H), "wrong-chain", f"step {i}: subgroup is not normal")
        G = H
    need(len(G) == 1, "wrong-chain", "does not end at the identity")
    done(plan, ctx, len(R), len(gens))


def run_regular(plan, ctx):
    from spgrep import representation

    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    a = W.present(plan["pres"], R)
    reg = np.asarray(ctx.call(representation.get_regular_representation, a))
    n = len(R)
    tab = O.rot_table(R)
    want = calls.regular_of(tab, np.ones((n, n)))
    need(reg.shape == want.shape and np.array_equal(reg, want.real), "wrong-regular-representation", "")
    e = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    r, t = R[e], T[e]
    mu = np.exp(-2j * np.pi * np.rint(np.einsum("iab,a->ib", r, k) - k) @ t.T)
    reg = np.asarray(ctx.call(representation.get_projective_regular_representation, W.present(plan["pres"], r), mu.copy()))
    m = len(r)
    need(reg.shape == (m, m, m), "malformed-output", str(reg.shape))
    tb = O.rot_table(r)
    x = np.abs(np.einsum("iab,jbc->ijac", reg, reg) - mu[:, :, None, None] * reg[tb]).max() if m <= 24 else 0.0
    need(x < 1e-9, "wrong-regular-representation", f"law error {x:.1e}")
    c = np.einsum("kii->k", reg)
    c[O.identity(tb)] -= m
    need(np.abs(c).max() < 1e-9, "wrong-regular-representation", "character")
    done(plan, ctx, n, m)


def run_spin(plan, ctx):
    from spgrep import spinor

    R, _ = W.build_ops(plan["ops"])
    L = W.lattice_for(R, plan["seed"])
    z, U = ctx.call(spinor.get_spinor_factor_system, L * (1 + plan["noise"]), W.present(plan["pres"], R))
    O.check_spin(L, R, U, z, O.rot_table(R), tol=1e-6)
    done(plan, ctx, len(R))


def run_mspin(plan, ctx):
    from spgrep import corep

    R, T, q = W.build_ops(plan["ops"])
    idx = C.distinct_rotations(R, q)
    R, q = R[idx], q[idx]
    L = W.lattice_for(R, plan["seed"])
    a, qq = W.present(plan["pres"], R, q=q)
    z, U, al = ctx.call(corep.get_corep_spinor_factor_system, L * (1 + plan["noise"]), a, qq)
    need(np.array_equal(np.asarray(al).astype(bool), q == 1), "wrong-anti-linear", "flags")
    O.check_spin(L, R, U, z, O.rot_table(R, q), tr=q, tol=1e-6)
    done(plan, ctx, len(R), int(q.sum()))


def shrink(plan):
    yield from C.shrink_spec(plan)
    if plan["noise"]:
        yield dict(plan, noise=0.0)
    if plan.get("perm"):
        yield dict(plan, perm=None)
    if "hall" in plan:
        return
    yield from C.smaller_halls(plan)
