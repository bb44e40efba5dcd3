"""C03: physically irreducible (real) representations."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 18000, "thorough": 225000}
RULE = (
    "one run = one presentation of a space group or point group, one k-vector (half of them time-reversal "
    "invariant), one method, one API and one environment; non-trivial when some real irrep is two-dimensional or "
    "more; distinct by (order, dimensions, types, k class, method, API) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.irreps", "spgrep.representation", "spgrep.group", "spgrep.pointgroup", "spglib.get_pointgroup", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = [
    "at a k-vector not equivalent to its negative one real representation may stand for an irrep and for the irrep with conjugate matrices, as the documentation of pairs says",
]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    method = C.method(rng)
    if method == "random" and rng.random() < 0.3:
        W.skew(rng, ops)
    R, T = W.build_ops(ops)
    return {
        "ops": ops,
        "k": W.trim_k(rng) if rng.random() < 0.55 else W.gen_k(rng, R),
        "method": method,
        "opts": C.options(rng),
        "pres": W.gen_presentation(rng),
        "api": ["prim", "small", "pg", "pgind", "phys"][rng.integers(5)],
        "gauge": int(rng.integers(1, 1 << 30)),
        "world": W.gen_world(rng),
    }


def check_real(reps, ind, n, k, tab, TT, T, tol):
    O.check_shape(reps, n)
    k = np.asarray(k, dtype=float)
    trim = np.abs(2 * k - np.rint(2 * k)).max() < 1e-7
    J = None
    g = np.random.Generator(np.random.PCG64(99))
    types = []
    tot = 0
    cs = O.chars(reps)
    for a, x in enumerate(reps):
        x = np.asarray(x)
        need(not np.iscomplexobj(x), "not-real", f"irreps[{a}] has dtype {x.dtype}")
        d = x.shape[1]
        need(O.unitary_error(x) < tol, "not-orthogonal", f"irreps[{a}] error {O.unitary_error(x):.2e}")
        if not trim:
            need(d % 2 == 0, "wrong-type", f"irreps[{a}] has odd dimension at a k-vector with 2k != 0")
        e = O.real_law_error(x, k, tab, TT, T, two_block=not trim)
        need(e < tol, "not-homomorphism", f"irreps[{a}] error {e:.2e}")
        # symmetric matrices commuting with the representation (and its translations)
        h = g.standard_normal((d, d))
        h = h + h.T
        if not trim:
            J = np.kron(np.array([[0, -1], [1, 0]]), np.eye(d // 2))
            h = (h + J.T @ h @ J) / 2
        av = np.einsum("kij,jl,kml->im", x, h, x) / n
        e = np.abs(av - np.trace(av) / d * np.eye(d)).max()
        need(e < 1e-3, "reducible", f"irreps[{a}] (real): a symmetric matrix commutes with it, error {e:.2e}")
        if trim:
            w = float(np.sum(np.abs(cs[a]) ** 2).real / n)
            r = int(np.rint(w))
            need(abs(w - r) < 1e-3 and r in (1, 2, 4), "reducible", f"irreps[{a}]: <chi,chi>={w:.4f}")
            typ = {1: 1, 4: -1, 2: 0}[r]
            tot += {1: d * d, 4: d * d // 4, 2: d * d // 2}[r]
            for b in range(a):
                v = abs(np.vdot(cs[a], cs[b])) / n
                need(v < 1e-3, "duplicate", f"irreps[{b}] and irreps[{a}]")
        else:
            typ = 0
        types.append(typ)
        if ind is not None:
            need(len(ind) == len(reps), "malformed-output", "one indicator per representation")
            need(int(ind[a]) == typ, "wrong-indicator", f"irreps[{a}]: {ind[a]}, expected {typ}")
    if trim:
        need(tot == n, "incomplete", f"complex content {tot} of {n}")
    return trim, types


def complexify(x):
    h = x.shape[1] // 2
    return x[:, :h, :h] + 1j * x[:, :h, h:]


def run(plan, ctx):
    import spgrep
    from spgrep.group import get_little_group
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps, get_physically_irrep

    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    tol = C.tol_of(plan["opts"])
    api = plan["api"]
    w = ctx.world(plan["world"])
    opts = plan["opts"]
    if api in ("pg", "pgind"):
        a = W.present(plan["pres"], R)
        k = np.zeros(3)
        with w:
            if api == "pg":
                reps, ind = ctx.call(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, a, real=True, method=plan["method"], **opts), None
            else:
                reps, ind = ctx.call(enumerate_unitary_irreps, a, real=True, method=plan["method"], **opts)
        tab = O.rot_table(R)
        n = len(R)
        _, types = check_real(reps, ind, n, k, tab, np.zeros((n, n, 3)), np.zeros((n, 3)), tol)
        ctx.note([np.round(np.sort(c.real), 3) for c in O.chars(reps)])
        ctx.cover(n, C.dims(reps), tuple(types), plan["method"], api, nontrivial=max(C.dims(reps)) > 1)
        return
    exp = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
    a, b, kk = W.present(plan["pres"], R, T, k)
    with w:
        if api == "prim":
            reps, mp = ctx.call(spgrep.get_spacegroup_irreps_from_primitive_symmetry, a, b, kk, real=True, method=plan["method"], **opts)
            ind = None
        else:
            lr, lt, mp = ctx.call(get_little_group, a, b, kk)
            reps, ind = ctx.call(enumerate_small_representations, lr, lt, kk, real=True, method=plan["method"], **opts)
        full, _ = ctx.call(spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, T, k, method="random" if plan["ops"].get("skew") else "Neto")
    mp = C.check_mapping(mp, exp)
    r, t = R[mp], T[mp]
    n = len(mp)
    tab, TT = O.op_table(r, t)
    trim, types = check_real(reps, ind, n, k, tab, TT, t, tol)
    # the complex irreps of the same little group; C01 decides these, here they are the reference
    C.check_linear(full, np.array(exp), R, T, k, exp)
    at = {int(j): s for s, j in enumerate(exp)}
    dropped = []
    full = [np.asarray(x)[[at[int(j)] for j in mp]] for x in full]
    cf = O.chars(full)
    if not trim:
        got = [complexify(np.asarray(x)) for x in reps]
        ph = O.translation_phase(k, TT, t, tab)
        O.check_law(got, tab, ph, tol, name="complex halves")
        cg = O.chars(got)
        for i, f in enumerate(cf):
            m = [j for j, g in enumerate(cg) if abs(np.vdot(g, f) / n - 1) < 1e-3]
            need(len(m) <= 1, "duplicate", f"complex irrep {i} is in {len(m)} real representations")
            if not m:
                c = [j for j, g in enumerate(cg) if np.abs(g - f.conj()).max() < 1e-4]
                need(len(c) > 0, "incomplete", f"complex irrep {i} is in no real representation")
                dropped.append((i, c[0]))
        for j, g in enumerate(cg):
            m = [i for i, f in enumerate(cf) if abs(np.vdot(g, f) / n - 1) < 1e-3]
            need(len(m) == 1, "reducible", f"irreps[{j}] stands for {len(m)} complex irreps")
            for i in range(j):
                need(abs(np.vdot(cg[i], g)) / n < 1e-3, "duplicate", f"irreps[{i}] and irreps[{j}]")
    else:
        # real character = chi (type 1), 2 chi (type -1) or chi + chi* (type 0)
        cr = O.chars(reps)
        for i, f in enumerate(cf):
            m = [j for j, g in enumerate(cr) if np.rint((np.vdot(f, g) / n).real) > 0]
            need(len(m) == 1, "incomplete", f"complex irrep {i} is in {len(m)} real representations")
    if api == "phys":
        # the kernel on its own: an irrep in an arbitrary unitary basis
        g = seams.sub_rng("gauge", plan["gauge"])
        j = int(g.integers(len(full)))
        x = full[j]
        q = C.haar(g, x.shape[1])
        y = np.einsum("ia,kab,jb->kij", q, x, q.conj())
        fs = O.fs_indicator(x, r, t, k, tab, TT)
        with w:
            out = ctx.call(get_physically_irrep, y.copy(), fs)
        O.check_shape([out], n)
        need(not np.iscomplexobj(out), "not-real", f"dtype {np.asarray(out).dtype}")
        need(O.unitary_error(out) < 1e-6, "not-orthogonal", f"{O.unitary_error(out):.2e}")
        e = O.real_law_error(out, k, tab, TT, t, two_block=not trim)
        need(e < 1e-6, "not-homomorphism", f"get_physically_irrep error {e:.2e}")
        want = cf[j] if fs == 1 else 2 * cf[j].real
        e = np.abs(O.chars([out])[0] - want).max()
        need(e < 1e-6, "wrong-character", f"get_physically_irrep error {e:.2e}")
    ctx.note([np.round(np.sort(c.real), 3) for c in O.chars(reps)])
    ctx.cover(n, C.dims(reps), tuple(types), C.kclass(k), plan["method"], api, nontrivial=max(C.dims(reps)) > 1)

    need(not dropped, "conjugate-partner-dropped",
         "at 2k != 0 complex irreps %s are in no real representation; on the listed operations they are the conjugates of %s" % tuple(zip(*dropped)) if dropped else "")


def matches_finding(finding, plan, res):
    """KF-C03-1: a whole real irrep is dropped when its matrices on the listed operations are conjugate to another's."""
    return finding["id"] == "KF-C03-1" and res["kind"] == "conjugate-partner-dropped"


def shrink(plan):
    yield from C.shrink_spec(plan)
    yield from C.smaller_halls(plan)
    if plan["method"] != "Neto" and not (plan.get("ops") or {}).get("skew"):
        yield dict(plan, method="Neto")
