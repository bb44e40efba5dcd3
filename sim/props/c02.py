"""C02: linear irreps of a crystal structure in any cell."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 6900, "thorough": 115000}
RULE = (
    "one run = one crystal (Hall number, random orbits, lattice) described in one cell (standard, primitive, "
    "unimodular, supercell), one k-vector in one reciprocal basis, and one environment in which the spglib peer "
    "answers in any operation order and with any lattice translation added; non-trivial when the cell is not the "
    "primitive standard one or the little group has more than one operation"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.transform", "spgrep.group", "spgrep.irreps", "spgrep.pointgroup", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + ["spglib answers re-ordered / shifted by lattice vectors by the simulator"],
}
ASSUMPTIONS = [
    "the symmetry operations spglib finds are those of the crystal; the property is about what is built on them",
    "symprec separates symmetry from asymmetry (cells are exact to 1e-9)",
]


def gen(rng, i):
    cell = W.gen_cell_spec(rng)
    L, pos, num = W.build_cell(cell)
    R, T, P = W.prim(cell["hall"])
    k = W.gen_k(rng, None)
    if rng.random() < 0.4:
        # special in the primitive basis of the standard cell, expressed in the given cell
        kp = np.array(W.gen_k(rng, R))
        M = np.eye(3) if cell["M"] is None else (W.CENTRING_OF(cell["hall"]) if isinstance(cell["M"], str) else np.array(cell["M"], dtype=float))
        k = [float(round(x, 12)) for x in M.T @ np.linalg.inv(P).T @ kp]
    rec = None
    if rng.random() < 0.3:
        rec = int(rng.integers(1, 1 << 30))
    return {
        "cell": cell,
        "k": k,
        "reciprocal": rec,
        "method": C.method(rng),
        "opts": C.options(rng),
        "distort": gen_distort(rng),
        "world": W.gen_world(rng, p_plain=0.2, peer=True),
    }


def reciprocal_of(seed, L):
    """Another basis of reciprocal space, as a caller may choose: any non-singular one."""
    g = seams.sub_rng("rec", seed)
    B = np.linalg.inv(L).T
    if g.random() < 0.5:
        return W.unimod(g, 3).T @ B
    return (np.eye(3) + 0.4 * g.uniform(-1, 1, (3, 3))) @ B


def distort(plan, L, pos, lattice=True):
    """A crystal as measured or relaxed: off its symmetry by far more than rounding, asked about with a larger symprec."""
    d = plan.get("distort")
    if not d:
        return L, pos
    g = seams.sub_rng("distort", d["seed"])
    pos = pos + d["amp"] * g.uniform(-1, 1, pos.shape) @ np.linalg.inv(L)
    if lattice and d.get("strain"):
        L = L @ (np.eye(3) + d["strain"] * g.uniform(-1, 1, (3, 3)))
    return L, pos


def gen_distort(rng):
    if rng.random() < 0.85:
        return None
    return {
        "seed": int(rng.integers(1, 1 << 30)),
        "amp": float([0, 3e-7, 3e-4, 1e-3][rng.integers(4)]),
        "strain": float([0, 0, 1e-9, 1e-6][rng.integers(4)]),
        "symprec": float([1e-5, 1e-2, 1e-2, 1e-3, 1e-7][rng.integers(5)]),
    }


def run(plan, ctx):
    import spgrep

    L, pos, num = W.build_cell(plan["cell"])
    L, pos = distort(plan, L, pos)
    k = np.array(plan["k"])
    tol = C.tol_of(plan["opts"])
    w = ctx.world(plan["world"])
    kw = dict(plan["opts"])
    ref = C.cell_operations(L, pos, num)
    if plan.get("distort"):
        kw["symprec"] = plan["distort"]["symprec"]
        ref = C.cell_operations(L, pos, num, kw["symprec"])
        if ref is None:
            return
        ctx.fault("crystal.distorted")
    kin = k
    if plan["reciprocal"]:
        B = reciprocal_of(plan["reciprocal"], L)
        kw["reciprocal_lattice"] = B
        kin = k @ np.linalg.inv(L).T @ np.linalg.inv(B)
    with w:
        irreps, R, T, mp = ctx.call(
            spgrep.get_spacegroup_irreps, L.copy(), pos.copy(), num.copy(), kin, method=plan["method"], **kw
        )
    R, T = np.asarray(R), np.asarray(T)
    O.check_operations(R, T, ref)
    exp = O.stabilizer(R, T, k, tol=1e-7)
    npt = len(O.pure_translations(R, T))
    C.check_linear(irreps, mp, R, T, k, exp, npt, max(tol, 2e-6))
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars(irreps)])
    kind = "std" if plan["cell"]["M"] is None else (plan["cell"]["M"] if isinstance(plan["cell"]["M"], str) else "det%d" % round(abs(np.linalg.det(plan["cell"]["M"]))))
    ctx.cover(len(exp), npt, C.dims(irreps), C.kclass(k), plan["method"], kind, bool(plan["reciprocal"]),
              nontrivial=len(exp) > 1 or kind != "std")


def shrink(plan):
    if plan.get("distort"):
        yield dict(plan, distort=None)
    yield from C.shrink_spec(plan)
    if plan["method"] != "Neto":
        yield dict(plan, method="Neto")
