"""C01: linear small representations from operations in a primitive cell."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need

RUNS = {"quick": 18000, "thorough": 300000}
RULE = (
    "one run = one crystal presentation (Hall number, basis, origin, lattice shifts, operation order, "
    "array layout), one k-vector, one method and one environment (random streams, degenerate draws, "
    "LAPACK choices); non-trivial when the little group has more than one operation; distinct by "
    "(order, irrep dimensions, k class, method, API) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.group", "spgrep.irreps", "spgrep.pointgroup", "spgrep.representation", "spglib.get_pointgroup", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = ["operations come from the 530 tabulated settings in bases whose rotation entries are -1, 0 or 1; any basis for method=random"]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    method = C.method(rng)
    if method == "random" and rng.random() < 0.3:
        W.skew(rng, ops)
    R, T = W.build_ops(ops)
    return {
        "ops": ops,
        "k": W.gen_k(rng, R),
        "method": method,
        "opts": C.options(rng),
        "pres": W.gen_presentation(rng),
        "api": ["prim", "prim", "small"][rng.integers(3)],
        "world": W.gen_world(rng),
    }


def run(plan, ctx):
    import spgrep
    from spgrep.group import get_little_group
    from spgrep.irreps import enumerate_small_representations

    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    tol = C.tol_of(plan["opts"])
    exp = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    w = ctx.world(plan["world"])
    a, b, kk = W.present(plan["pres"], R, T, k)
    with w:
        if plan["api"] == "prim":
            irreps, mp = ctx.call(
                spgrep.get_spacegroup_irreps_from_primitive_symmetry, a, b, kk, method=plan["method"], **plan["opts"]
            )
            ind = None
        else:
            lr, lt, mp = ctx.call(get_little_group, a, b, np.array(k))
            C.check_mapping(mp, exp)
            need(np.array_equal(np.rint(lr), R[mp]) and np.allclose(lt, T[mp], atol=1e-12),
                 "wrong-little-group", "little group operations are not the mapped ones")
            irreps, ind = ctx.call(
                enumerate_small_representations, np.rint(lr).astype(int), lt, kk, method=plan["method"], **plan["opts"]
            )
    tab, TT = C.check_linear(irreps, mp, R, T, k, exp, 1, tol)
    if ind is not None:
        need(len(ind) == len(irreps), "malformed-output", "one indicator per irrep")
        r, t = R[np.asarray(mp)], T[np.asarray(mp)]
        for j, x in enumerate(irreps):
            want = O.fs_indicator(x, r, t, k, tab, TT)
            need(int(ind[j]) == want, "wrong-indicator", f"irreps[{j}]: {ind[j]}, expected {want}")
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars(irreps)])
    ctx.cover(len(exp), C.dims(irreps), C.kclass(k), plan["method"], plan["api"], nontrivial=len(exp) > 1)


def shrink(plan):
    yield from C.shrink_spec(plan)
    yield from C.smaller_halls(plan)
    if plan["method"] != "Neto" and not (plan.get("ops") or {}).get("skew"):
        yield dict(plan, method="Neto")
