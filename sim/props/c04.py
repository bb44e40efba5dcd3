"""C04: irreps of crystallographic point groups and their reality."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 18000, "thorough": 300000}
RULE = (
    "one run = one of the 32 crystal classes in one of its tabulated settings and bases, its operations in any "
    "order, one method, one API and one environment; non-trivial when the order exceeds 2; distinct by "
    "(order, dimensions, indicators, method, API) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.irreps", "spgrep.pointgroup", "spgrep.representation", "spglib.get_pointgroup", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = ["bases whose rotation entries are -1, 0 or 1"]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    ops["origin"] = ops["lshift"] = None
    if rng.random() < 0.5:
        ops["conv"] = True  # rotations in the conventional basis
        ops["M"] = None
    method = C.method(rng)
    if method == "random" and not ops.get("conv") and rng.random() < 0.4:
        W.skew(rng, ops)
    return {
        "ops": ops,
        "method": method,
        "opts": C.options(rng),
        "pres": W.gen_presentation(rng),
        "api": ["pg", "pg", "ind"][rng.integers(3)],
        "world": W.gen_world(rng),
    }


def rotations(ops):
    if ops.get("conv"):
        R = W.db(ops["hall"])[0]
        R = R[C.distinct_rotations(R)]
        if ops.get("perm"):
            R = R[seams.sub_rng("perm", ops["perm"]).permutation(len(R))]
        return R
    return W.build_ops(ops)[0]


def run(plan, ctx):
    import spgrep
    from spgrep.irreps import enumerate_unitary_irreps

    R = rotations(plan["ops"])
    n = len(R)
    tol = C.tol_of(plan["opts"])
    a = W.present(plan["pres"], R)
    w = ctx.world(plan["world"])
    ind = None
    with w:
        if plan["api"] == "pg":
            irreps = ctx.call(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, a, method=plan["method"], **plan["opts"])
        else:
            irreps, ind = ctx.call(enumerate_unitary_irreps, a, method=plan["method"], **plan["opts"])
    O.check_shape(irreps, n)
    tab = O.rot_table(R)
    O.check_law(irreps, tab, np.ones((n, n)), tol)
    O.check_family(irreps, n, n, tol)
    need(len(irreps) == O.conjugacy_classes(tab), "incomplete", "number of irreps is not the number of classes")
    cs = O.chars(irreps)
    sq = tab[np.arange(n), np.arange(n)]
    fs = [int(np.rint((c[sq].sum() / n).real)) for c in cs]
    if ind is not None:
        need(len(ind) == len(irreps), "malformed-output", "one indicator per irrep")
        need([int(x) for x in ind] == fs, "wrong-indicator", f"{list(ind)}, expected {fs}")
    ctx.note(sorted(str(np.round(np.sort_complex(c), 3).tolist()) for c in cs))
    ctx.cover(n, C.dims(irreps), tuple(fs), plan["method"], plan["api"], nontrivial=n > 2)


def shrink(plan):
    yield from C.shrink_spec(plan)
    if plan["method"] != "Neto" and not (plan.get("ops") or {}).get("skew"):
        yield dict(plan, method="Neto")
