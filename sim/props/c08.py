"""C08: symmetry-adapted tensors."""

from __future__ import annotations

from itertools import permutations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 6000, "thorough": 100000}
RULE = (
    "one run = one crystal class in some setting, one representation (Cartesian rotations for a compatible lattice in a "
    "random orientation, axial vectors, site permutations, or a rotated sum of irreps), one rank 1-3, over real or complex "
    "numbers, in one environment; non-trivial when at least one invariant tensor exists; distinct by (order, kind, "
    "dimension, rank, count, real) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.tensor", "spgrep.irreps", "spgrep.representation", "spgrep.pointgroup", "spgrep.utils", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = [
    "representation unitary; an irrep at most three times in it",
    "number of tensors left by apply_intrinsic_symmetry is not judged above rank 3: the documentation disclaims it",
]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    ops["origin"] = ops["lshift"] = None
    kind = ["cart", "cart", "axial", "perm", "sum"][rng.integers(5)]
    return {
        "ops": ops,
        "kind": kind,
        "rank": int(rng.choice([1, 2, 3, 4, 5], p=[0.23, 0.48, 0.23, 0.05, 0.01])),
        "real": bool(rng.random() < 0.5),
        "lat": int(rng.integers(1, 1 << 30)),
        "mult": int(rng.integers(1, 1 << 30)),
        "sym": bool(rng.random() < 0.5),
        "world": W.gen_world(rng),
    }


def representation(plan, R, ctx):
    from spgrep.irreps import enumerate_unitary_irreps

    g = seams.sub_rng("rep", plan["mult"])
    if plan["kind"] in ("cart", "axial"):
        rep = C.cart_rep(R, W.lattice_for(R, plan["lat"]))
        if plan["kind"] == "axial":
            rep = rep * np.sign(np.linalg.det(rep))[:, None, None]
        return rep
    if plan["kind"] == "perm":
        # action on the orbit of a lattice direction
        v = g.integers(-1, 2, 3)
        if not v.any():
            v = np.array([1, 0, 0])
        orb = []
        for r in R:
            y = tuple((r @ v).tolist())
            if y not in orb:
                orb.append(y)
        if len(orb) <= 8:
            rep = np.zeros((len(R), len(orb), len(orb)))
            for a, r in enumerate(R):
                for b, y in enumerate(orb):
                    rep[a, orb.index(tuple((r @ np.array(y)).tolist())), b] = 1
            return rep
    irreps, _ = ctx.call(enumerate_unitary_irreps, R, real=plan["real"])
    irreps = [np.asarray(x) for x in irreps]
    need(len(irreps) > 0, "bad-input", "no irreps")
    blocks, d = [], 0
    for j in g.permutation(len(irreps)).tolist() + g.permutation(len(irreps)).tolist():
        m = irreps[j].shape[1]
        if d + m <= 4 and sum(1 for b in blocks if b is irreps[j]) < 3:
            blocks.append(irreps[j])
            d += m
    if not blocks:
        blocks, d = [irreps[0]], irreps[0].shape[1]
    return C.block_sum(blocks, C.haar(g, d, real=plan["real"]))


def invariance_error(rep, t):
    n, rank = len(rep), t.ndim
    worst = 0.0
    for g in range(n):
        x = t
        for ax in range(rank):
            x = np.moveaxis(np.tensordot(rep[g], x, axes=(1, ax)), 0, ax)
        worst = max(worst, float(np.abs(x - t).max()))
    return worst


def run(plan, ctx):
    from spgrep.tensor import apply_intrinsic_symmetry, get_symmetry_adapted_tensors

    R = W.build_ops(plan["ops"])[0]
    n = len(R)
    rank = plan["rank"]
    w = ctx.world(plan["world"])
    with w:
        rep = representation(plan, R, ctx)
        d = rep.shape[1]
        chi = np.einsum("kii->k", rep)
        while rank > 1 and (d**rank > 300 or d > 6 and rank > 2):
            rank -= 1
        want = int(np.rint((np.sum(chi**rank) / n).real))
        tensors = ctx.call(get_symmetry_adapted_tensors, rep, R, rank, real=plan["real"])
        need(isinstance(tensors, (list, tuple)), "malformed-output", "tensors is not a list")
        need(len(tensors) == want, "wrong-number", f"{len(tensors)} invariant tensors of rank {rank}, expected {want}")
        for a, t in enumerate(tensors):
            t = np.asarray(t)
            need(t.shape == (d,) * rank, "malformed-output", f"tensor {t.shape}")
            need(np.isfinite(t).all(), "not-finite", f"tensor {a}")
            s = max(1e-12, np.abs(t).max())
            e = invariance_error(rep, t / s)
            need(e < 1e-6, "not-invariant", f"tensor {a}: error {e:.2e}")
            need(s > 1e-6, "zero-tensor", f"tensor {a} vanishes")
            if plan["real"] and not np.iscomplexobj(rep):
                need(np.abs(np.imag(t)).max() < 1e-9, "not-real", f"tensor {a} has an imaginary part")
        if tensors:
            M = np.array([np.asarray(t).reshape(-1) / np.linalg.norm(t) for t in tensors])
            s = seams._ORIG["svd"](M, compute_uv=False)
            need(s[-1] > 1e-4, "linearly-dependent", f"tensors are dependent (smallest singular value {s[-1]:.1e})")
        nsym = -1
        if plan["sym"] and tensors:
            out = ctx.call(apply_intrinsic_symmetry, [np.array(t) for t in tensors])
            nsym = len(out)
            proj = np.linalg.pinv(M.T)
            for a, t in enumerate(out):
                t = np.asarray(t)
                need(t.shape == (d,) * rank, "malformed-output", f"symmetrised tensor {t.shape}")
                need(np.isfinite(t).all() and np.abs(t).max() > 1e-6, "zero-tensor", f"symmetrised {a}")
                for p in permutations(range(rank)):
                    e = np.abs(np.transpose(t, p) - t).max()
                    need(e < 1e-6, "not-symmetric", f"symmetrised tensor {a} under {p}: error {e:.2e}")
                e = invariance_error(rep, t)
                need(e < 1e-6, "not-invariant", f"symmetrised tensor {a}: error {e:.2e}")
            # dimension of the symmetric invariants: character of the symmetric power
            S = np.zeros((len(tensors), d**rank), dtype=complex)
            for a, t in enumerate(tensors):
                t = np.asarray(t) / np.linalg.norm(t)
                S[a] = sum(np.transpose(t, p) for p in permutations(range(rank))).reshape(-1)
            true = int(np.linalg.matrix_rank(S, tol=1e-5))
            if rank <= 3:
                need(nsym == true, "wrong-number", f"{nsym} symmetrised tensors, span has dimension {true}")
            need((nsym > 0) == (true > 0), "wrong-number", f"{nsym} symmetrised tensors, span has dimension {true}")
            if nsym:
                rk = int(np.linalg.matrix_rank(np.array([np.asarray(t).reshape(-1) for t in out]), tol=1e-5))
                need(rk <= true, "wrong-number", "symmetrised tensors leave the span")
    ctx.note(len(tensors), nsym)
    ctx.cover(n, plan["kind"], d, rank, len(tensors), plan["real"], nontrivial=len(tensors) > 0)


def shrink(plan):
    yield from C.shrink_spec(plan)
    yield from C.smaller_halls(plan)
    for key, v in (("sym", False), ("rank", 1), ("rank", 2), ("real", False), ("kind", "cart")):
        if plan[key] != v and not (key == "rank" and v > plan["rank"]):
            yield dict(plan, **{key: v})
