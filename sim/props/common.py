"""Shared by the property modules."""

from __future__ import annotations

import numpy as np

from .. import oracle as O
from .. import seams
from .. import workload as W
from ..oracle import Problem, need  # noqa: F401

RECORDED_PEER = "spglib.get_magnetic_symmetry_dataset (recorded datasets replayed; the real call may crash the process)"
SHIMS = [
    "numpy.random.default_rng (simulated stream)",
    "numpy.linalg.eigh/eig/qr/inv/det/svd/norm (real LAPACK, simulated free choices and round-off)",
]


def method(rng):
    return ["Neto", "Neto", "random"][rng.integers(3)]


def options(rng):
    """Documented optional parameters; mostly defaults."""
    o = {}
    if rng.random() < 0.25:
        o["max_num_random_generations"] = int([4, 6, 10][rng.integers(3)])
    if rng.random() < 0.2:
        o["rtol"] = [1e-5, 1e-6][rng.integers(2)]
    if rng.random() < 0.2:
        o["atol"] = [1e-8, 1e-9, 1e-7][rng.integers(3)]
    return o


def tol_of(opts):
    return max(1e-7, 20 * (opts or {}).get("atol", 0))


def kclass(k):
    k = np.asarray(k, dtype=float)
    if np.abs(k - np.rint(k)).max() < 1e-9:
        return "Gamma" if not k.any() else "G-equivalent"
    if np.abs(2 * k - np.rint(2 * k)).max() < 1e-9:
        return "TRIM"
    for den in (3, 4, 6):
        if np.abs(den * k - np.rint(den * k)).max() < 1e-9:
            return "1/%d" % den
    d = np.abs(2 * k - np.rint(2 * k)).max()
    return "near-special" if d < 0.05 else "line-or-generic"


def dims(reps):
    return tuple(np.asarray(x).shape[1] for x in reps)


def cell_operations(L, pos, num, symprec=1e-5):
    """What spglib itself answers for a cell: None or rotations and translations."""
    ds = seams._ORIG["get_symmetry_dataset"]((np.array(L), np.array(pos), np.array(num)), symprec=symprec)
    return None if ds is None else {k: np.array(ds[k]) for k in ("rotations", "translations")}


def check_mapping(mp, expected):
    mp = np.asarray(mp)
    need(mp.ndim == 1 and mp.dtype.kind in "iu", "malformed-output", f"mapping {mp.shape} {mp.dtype}")
    need(sorted(mp.tolist()) == list(expected), "wrong-little-group",
         f"returned {len(mp)} operations {sorted(mp.tolist())[:12]}, expected {len(expected)} {list(expected)[:12]}")
    return mp


def check_linear(irreps, mp, R, T, k, expected, npt=1, tol=1e-7):
    """The whole statement about linear small representations."""
    mp = check_mapping(mp, expected)
    r, t = np.asarray(R)[mp], np.asarray(T, dtype=float)[mp]
    n = len(mp)
    O.check_shape(irreps, n)
    tab, TT = O.op_table(r, t)
    ph = O.translation_phase(k, TT, t, tab)
    O.check_law(irreps, tab, ph, tol)
    for i in O.pure_translations(r, t):
        want = np.exp(-2j * np.pi * np.dot(k, t[i]))
        for a, x in enumerate(irreps):
            e = np.abs(np.asarray(x)[i] - want * np.eye(np.asarray(x).shape[1])).max()
            need(e < tol, "wrong-translation-phase", f"irreps[{a}] at translation {t[i]}: error {e:.2e}")
    need(n % npt == 0, "wrong-little-group", f"{n} operations, {npt} centrings")
    O.check_family(irreps, n, n // npt, tol)
    return tab, TT


def shrink_spec(plan):
    """Candidates common to most plans, most aggressive first."""
    for key in ("world", "world_b", "world_a"):
        if key in plan:
            for w in W.simplify_world(plan[key]):
                yield dict(plan, **{key: w})
    for key in ("ops", "cell"):
        if key in plan:
            for s in W.simplify_ops(plan[key]):
                yield dict(plan, **{key: s})
    if plan.get("opts"):
        yield dict(plan, opts={})
    if plan.get("pres") and plan["pres"] != {}:
        yield dict(plan, pres={})
        for key in plan["pres"]:
            yield dict(plan, pres={a: b for a, b in plan["pres"].items() if a != key})
    if plan.get("reciprocal"):
        yield dict(plan, reciprocal=None)
    if plan.get("k"):
        for k in W.simplify_k(plan["k"]):
            yield dict(plan, k=k)


def smaller_halls(plan):
    """The same failure in an earlier tabulated group."""
    ops = plan.get("ops") or {}
    if "hall" in ops:
        for h in (1, 2, 3, 6, 18, 57, 108, 349, 430, 462, 489):
            if h < ops["hall"]:
                yield dict(plan, ops={"hall": h})


def cart_rep(R, L):
    A = np.asarray(L).T
    Ai = np.linalg.inv(A)
    return np.array([A @ np.asarray(r, dtype=float) @ Ai for r in R])


def distinct_rotations(R, q=None):
    seen, idx = set(), []
    for i in range(len(R)):
        key = (np.asarray(R[i]).astype(int).tobytes(), 0 if q is None else int(q[i]))
        if key not in seen:
            seen.add(key)
            idx.append(i)
    return idx


def haar(g, d, real=False):
    a = g.standard_normal((d, d))
    if not real:
        a = a + 1j * g.standard_normal((d, d))
    q, r = seams._ORIG["qr"](a)
    ph = np.diagonal(r)
    return q * (ph / np.abs(ph))


def block_sum(reps, rot):
    """rot (sum of reps) rot^dagger"""
    n = len(reps[0])
    d = sum(x.shape[1] for x in reps)
    out = np.zeros((n, d, d), dtype=np.result_type(*[x.dtype for x in reps], rot.dtype))
    o = 0
    for x in reps:
        out[:, o : o + x.shape[1], o : o + x.shape[1]] = x
        o += x.shape[1]
    return np.einsum("ia,kab,jb->kij", rot, out, rot.conj())
