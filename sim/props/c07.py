"""C07: projection of a representation onto an irrep."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 10000, "thorough": 137500}
RULE = (
    "one run = one (projective) group of operators, one reducible representation assembled from its irreps with chosen "
    "multiplicities in a random, permuted or plain basis (or the real displacements of a crystal's atoms), projected onto every irrep (contained or not), in one "
    "environment; non-trivial when at least two copies or two different irreps are contained; distinct by (order, "
    "multiplicities, dimensions, kind of group, basis) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.representation.project_to_irrep", "spgrep.irreps", "spgrep.utils.grassmann_distance", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = ["representation unitary, multiplicity of an irrep at most 24, dimension at most 48"]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    kind = ["point", "point", "small", "proj", "spinor", "real", "crystal"][rng.integers(7)]
    plan = {
        "ops": ops,
        "kind": kind,
        "method": C.method(rng),
        "mult": int(rng.integers(1, 1 << 30)),
        "basis": ["haar", "perm", "plain", "real"][rng.integers(4)],
        "gauge": bool(rng.random() < 0.4),
        "ycast": bool(rng.random() < 0.2),
        "trials": int(rng.integers(3, 11)) if rng.random() < 0.2 else None,
        "lat": int(rng.integers(1, 1 << 30)),
        "world": W.gen_world(rng),
        "noise": float(10.0 ** -rng.uniform(9, 14)) if rng.random() < 0.25 else 0.0,
    }
    R, T = W.build_ops(ops)
    plan["k"] = W.gen_k(rng, R) if kind in ("small", "proj", "spinor") else [0.0, 0.0, 0.0]
    return plan


def operators(plan, ctx):
    """(irreps, multiplication factors) of the group of operators the plan names."""
    from spgrep.group import get_factor_system_from_little_group
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
    from spgrep.spinor import enumerate_spinor_small_representations

    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    kind = plan["kind"]
    if kind in ("point", "real", "crystal"):
        irreps, _ = ctx.call(enumerate_unitary_irreps, R, real=kind == "real", method=plan["method"])
        return [np.asarray(x) for x in irreps], R
    idx = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    r, t = R[idx], T[idx]
    if kind == "small":
        irreps, _ = ctx.call(enumerate_small_representations, r, t, k, method=plan["method"])
    elif kind == "proj":
        fs = get_factor_system_from_little_group(r, t, k)
        irreps, _ = ctx.call(enumerate_unitary_irreps, r, fs, method=plan["method"])
    else:
        L = W.lattice_for(R, plan["lat"])
        irreps, _, _ = ctx.call(enumerate_spinor_small_representations, L, r, t, k, method=plan["method"])
    return [np.asarray(x) for x in irreps], r


def run(plan, ctx):
    from spgrep.representation import project_to_irrep

    w = ctx.world(plan["world"])
    with w:
        irreps, r = operators(plan, ctx)
        n = len(r)
        # Only contracts of C01/C04/C05 make the input valid; do not judge them here
        ok = len(irreps) and all(O.unitary_error(x) < 1e-6 and len(x) == n for x in irreps)
        need(bool(ok), "bad-input", "operators of the representation are not unitary")
        g = seams.sub_rng("mult", plan["mult"])
        if plan.get("gauge"):
            V = [C.haar(g, x.shape[1], real=plan["kind"] == "real") for x in irreps]
            irreps = [np.einsum("ia,kab,jb->kij", v, x, v.conj()) for v, x in zip(V, irreps)]
        top = 4 if g.random() < 0.8 else 13
        mult = [int(x) for x in g.integers(0, top, len(irreps))]
        while sum(m * x.shape[1] for m, x in zip(mult, irreps)) > 30:
            j = int(np.argmax([m * x.shape[1] for m, x in zip(mult, irreps)]))
            mult[j] -= 1
        if not any(mult):
            mult[int(g.integers(len(irreps)))] = 1
        if plan["kind"] == "crystal":
            rep = displacements(g, r, plan["lat"])
            chi = np.einsum("kii->k", rep)
            mult = [int(np.rint(np.vdot(c, chi).real / n)) for c in O.chars(irreps)]
            judge(plan, ctx, rep, irreps, mult, project_to_irrep, g)
            return
        order = [j for j, m in enumerate(mult) for _ in range(m)]
        order = [order[j] for j in g.permutation(len(order))]
        blocks = [irreps[j] for j in order]
        d = sum(x.shape[1] for x in blocks)
        if plan["basis"] == "haar":
            rot = C.haar(g, d, real=plan["kind"] == "real")
        elif plan["basis"] == "real":
            rot = C.haar(g, d, real=True)
        elif plan["basis"] == "perm":
            rot = np.eye(d)[g.permutation(d)]
        else:
            rot = np.eye(d)
        rep = C.block_sum(blocks, rot)
        judge(plan, ctx, rep, irreps, mult, project_to_irrep, g)


def displacements(g, r, lat):
    """A real representation as crystals provide it: vectors or tensors at the points of an orbit, or the orbit alone."""
    cart = C.cart_rep(r, W.lattice_for(r, lat))
    tab = O.rot_table(r)
    n = len(r)
    kind = int(g.integers(4))
    if kind == 0:
        rep = cart
    elif kind == 1:
        rep = np.einsum("kab,kcd->kacbd", cart, cart).reshape(n, 9, 9)
    else:
        # cosets of a subgroup generated by one element
        h, a = [O.identity(tab)], int(g.integers(n))
        while tab[h[-1], a] not in h:
            h.append(int(tab[h[-1], a]))
        cos = sorted({tuple(sorted(int(tab[x, y]) for y in h)) for x in range(n)})
        where = {y: c for c, ys in enumerate(cos) for y in ys}
        rep = np.zeros((n, len(cos), len(cos)))
        for x in range(n):
            for c, ys in enumerate(cos):
                rep[x, where[int(tab[x, ys[0]])], c] = 1
        if kind == 3 and len(cos) <= 8:
            rep = np.einsum("kab,kcd->kacbd", rep, cart).reshape(n, 3 * len(cos), 3 * len(cos))
    if g.random() < 0.5:
        V = C.haar(g, rep.shape[1], real=True)
        rep = V @ rep @ V.T
    return np.ascontiguousarray(rep)


def judge(plan, ctx, rep, irreps, mult, project_to_irrep, g):
    n = len(rep)
    if plan["noise"]:
        rep = rep + plan["noise"] * g.uniform(-1, 1, rep.shape)
        ctx.fault("input.noise")
    tol = max(1e-6, 1e4 * plan["noise"])
    kw = {"max_num_trials": plan["trials"]} if plan["trials"] else {}
    for j, y in enumerate(irreps):
        if plan["ycast"]:
            y = np.array(y, order="F")
            y.flags.writeable = False
        basis = ctx.call(project_to_irrep, rep, y, **kw)
        check_basis(rep, y, basis, mult[j], j, tol)
        ctx.note(len(basis))
    ctx.cover(n, tuple(mult), C.dims(irreps), plan["kind"], plan["basis"], nontrivial=sum(mult) > 1)


def check_basis(rep, y, basis, want, j, tol):
    need(isinstance(basis, (list, tuple)), "malformed-output", "basis is not a list")
    need(len(basis) == want, "wrong-multiplicity", f"{len(basis)} copies of irrep {j} found, {want} contained")
    m, d = y.shape[1], rep.shape[1]
    rows = []
    for b, x in enumerate(basis):
        x = np.asarray(x)
        need(x.shape == (m, d), "malformed-output", f"basis block {x.shape}, expected {(m, d)}")
        need(np.isfinite(x).all(), "not-finite", "basis")
        e = np.abs(np.einsum("gmn,in->gim", rep, x) - np.einsum("gli,lm->gim", y, x)).max()
        need(e < tol, "wrong-transformation", f"copy {b} of irrep {j}: error {e:.2e}")
        e = np.abs(x @ x.conj().T - np.eye(m)).max()
        need(e < tol, "not-orthonormal", f"copy {b} of irrep {j}: error {e:.2e}")
        rows.append(x)
    if rows:
        s = seams._ORIG["svd"](np.concatenate(rows, axis=0), compute_uv=False)
        need(len(s) >= want * m and s[want * m - 1] > 1e-4, "linearly-dependent", f"copies of irrep {j} are not independent")


def shrink(plan):
    yield from C.shrink_spec(plan)
    yield from C.smaller_halls(plan)
    for key, v in (("basis", "plain"), ("noise", 0.0), ("ycast", False), ("gauge", False), ("trials", None), ("kind", "point"), ("method", "Neto")):
        if plan.get(key, v) != v:
            yield dict(plan, **{key: v})
    for m in range(1, 6):
        if plan["mult"] != m:
            yield dict(plan, mult=m)
