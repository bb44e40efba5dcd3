"""C15: the decomposition kernel below the public entry points, for any factor system."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 22000, "thorough": 275000}
RULE = (
    "one run = one crystal class or little co-group with a factor system (trivial, nonsymmorphic, spinor or their product) "
    "in an arbitrary normalised gauge, one kernel operation (regular representation, decomposition of a reducible "
    "representation, solvable chain, intertwiner, realification) and one environment; non-trivial when the order exceeds "
    "2; distinct by (operation, order, dimensions, factor system kind) and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.irreps", "spgrep.representation", "spgrep.group", "spgrep.pointgroup", "spglib.get_pointgroup", "LAPACK"],
    "stub": C.SHIMS,
}
ASSUMPTIONS = ["factor systems normalised so that the identity acts as 1", "bases whose rotation entries are -1, 0 or 1"]
KINDS = ["regular", "chain", "decompose", "intertwine", "real", "unitary"]


def gen(rng, i):
    ops = W.gen_ops_spec(rng)
    kind = KINDS[rng.integers(len(KINDS))]
    if kind not in ("chain", "unitary") and rng.random() < 0.2:
        W.skew(rng, ops)
    R, _ = W.build_ops(ops)
    return {
        "ops": ops,
        "kind": kind,
        "factor": ["one", "space", "spin", "both"][rng.integers(4)],
        "gauge": int(rng.integers(1, 1 << 30)) if rng.random() < 0.6 else None,
        "exact": bool(rng.random() < 0.5),
        "k": W.gen_k(rng, R),
        "lat": int(rng.integers(1, 1 << 30)),
        "mult": int(rng.integers(1, 1 << 30)),
        "world": W.gen_world(rng),
        "lost": int(rng.integers(1, 1 << 30)) if rng.random() < 0.3 else None,
    }


def setting(plan, ctx):
    """rotations, multiplication table, factor system (an exact cocycle)."""
    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    if plan["factor"] in ("one", "spin"):
        r, t, k = R, np.zeros_like(T), np.zeros(3)
    else:
        idx = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
        r, t = R[idx], T[idx]
    n = len(r)
    tab = O.rot_table(r)
    # factor systems computed here, not by spgrep
    mu = np.ones((n, n), dtype=complex)
    if plan["factor"] in ("space", "both"):
        res = np.einsum("iab,a->ib", r, k) - k
        res = np.rint(res) if np.abs(res - np.rint(res)).max() < 1e-7 else res
        mu = mu * np.exp(-2j * np.pi * res @ t.T)
    if plan["factor"] in ("spin", "both"):
        U = np.array([su2(W.lattice_for(R, plan["lat"]), x) for x in r])
        P = np.einsum("iab,jbc->ijac", U, U)
        mu = mu * np.sign(np.real(np.einsum("ijab,ijab->ij", U[tab].conj(), P)))
    if plan["gauge"]:
        rg = seams.sub_rng("gauge", plan["gauge"])
        how = plan["gauge"] % 3
        g = rg.choice([1.0, -1.0], n) if how == 1 else rg.choice([1, 1j, -1, -1j], n) if how == 2 else np.exp(2j * np.pi * rg.random(n))
        g[O.identity(tab)] = 1
        mu = mu * g[:, None] * g[None, :] / g[tab]
    if plan.get("exact"):  # a host that writes 1, i, -1, -i without round-off
        for v in (1, 1j, -1, -1j):
            mu = np.where(np.abs(mu - v) < 1e-13, v, mu)
    return r, tab, mu


def su2(L, r):
    """Quaternion route to SU(2); independent of spgrep's axis-angle route."""
    A = np.asarray(L).T
    c = A @ r @ np.linalg.inv(A)
    c = c * np.sign(np.linalg.det(c))
    # largest eigenvector of Bar-Itzhack's matrix
    K = np.array([
        [c[0, 0] - c[1, 1] - c[2, 2], c[1, 0] + c[0, 1], c[2, 0] + c[0, 2], c[2, 1] - c[1, 2]],
        [c[1, 0] + c[0, 1], c[1, 1] - c[0, 0] - c[2, 2], c[2, 1] + c[1, 2], c[0, 2] - c[2, 0]],
        [c[2, 0] + c[0, 2], c[2, 1] + c[1, 2], c[2, 2] - c[0, 0] - c[1, 1], c[1, 0] - c[0, 1]],
        [c[2, 1] - c[1, 2], c[0, 2] - c[2, 0], c[1, 0] - c[0, 1], c.trace()],
    ]) / 3
    _, v = seams._ORIG["eigh"](K)
    x, y, z, w = v[:, -1]
    if (c.trace() > 2.9) and w < 0:
        x, y, z, w = -x, -y, -z, -w
    return np.array([[w - 1j * z, -y - 1j * x], [y - 1j * x, w + 1j * z]])


def law(reps, tab, mu, tol, name):
    O.check_law(reps, tab, mu, tol, name=name)


def run(plan, ctx):
    from spgrep import group as sg
    from spgrep import irreps as si
    from spgrep import pointgroup as sp
    from spgrep import representation as sr

    w = ctx.world(plan["world"])
    kind = plan["kind"]
    with w:
        r, tab, mu = setting(plan, ctx)
        n = len(r)
        tol = 1e-6
        got = ctx.call(sg.get_cayley_table, r)
        need(np.array_equal(got, tab), "wrong-table", "multiplication table differs")
        if kind == "regular":
            reg = ctx.call(sr.get_projective_regular_representation, r, mu)
            want = np.zeros((n, n, n), dtype=complex)
            for a in range(n):
                want[a, tab[a], np.arange(n)] = mu[a]
            need(np.shape(reg) == (n, n, n) and np.abs(np.asarray(reg) - want).max() < 1e-12, "wrong-regular", "projective regular representation")
            out = ctx.call(si.enumerate_unitary_irreps_from_regular_representation, reg)
        elif kind == "chain":
            gens = ctx.call(sp.get_pointgroup_chain_generators, r)
            check_chain(gens, tab)
            if plan.get("lost") and n > 1:
                lost_generators(plan, ctx, gens, tab, mu, si)
            out = ctx.call(si.enumerate_unitary_irreps_from_solvable_group_chain, tab.copy(), mu.copy(), list(gens))
        elif kind == "unitary":
            g = seams.sub_rng("mult", plan["mult"])
            out, ind = ctx.call(si.enumerate_unitary_irreps, r, mu, method=["Neto", "random"][g.integers(2)])
            check_indicators(out, ind, tab, mu, n)
        else:
            out = ctx.call(si.enumerate_unitary_irreps_from_regular_representation, regular(tab, mu))
        O.check_shape(out, n)
        law(out, tab, mu, tol, kind)
        O.check_family(out, n, n, tol)
        out = [np.asarray(x) for x in out]
        need(all(bool(sr.is_unitary(x)) for x in out), "not-unitary", "is_unitary denies it")
        for x in out:
            c = ctx.call(sr.get_character, x)
            need(np.abs(np.asarray(c) - np.einsum("kii->k", x)).max() < 1e-9, "wrong-character", "get_character")
        if kind == "decompose":
            decompose(plan, ctx, out, n, tab, mu, si)
        elif kind == "intertwine":
            intertwine(plan, ctx, out, n, sr)
        elif kind == "real":
            realify(plan, ctx, out, n, tab, mu, si, sr)
    ctx.note([np.sort_complex(np.round(c, 3)) for c in O.chars(out)])
    ctx.cover(kind, n, C.dims(out), plan["factor"], bool(plan["gauge"]), nontrivial=n > 2)


def regular(tab, mu):
    n = len(tab)
    reg = np.zeros((n, n, n), dtype=complex)
    for a in range(n):
        reg[a, tab[a], np.arange(n)] = mu[a]
    return reg


def check_chain(gens, tab):
    """Adjoining the generators from the last to the first gives a normal series with abelian quotients."""
    n = len(tab)
    e = O.identity(tab)
    inv = [int(np.nonzero(tab[i] == e)[0][0]) for i in range(n)]
    grp = {e}
    for r in [int(x) for x in gens][::-1]:
        need(0 <= r < n, "wrong-chain", f"generator {r}")
        new = set(grp)
        while True:
            more = {int(tab[r, x]) for x in new} | new
            if more == new:
                break
            new = more
        closed = all(int(tab[a, b]) in new for a in new for b in new)
        need(closed, "wrong-chain", "a step of the chain is not a subgroup")
        need(all(int(tab[tab[a, s], inv[a]]) in grp for a in new for s in grp), "wrong-chain", "a step is not normal in the next")
        comm = all(int(tab[tab[a, b], tab[inv[a], inv[b]]]) in grp for a in new for b in new)
        need(comm, "wrong-chain", "a factor group is not abelian")
        need(len(new) > len(grp), "wrong-chain", "a redundant generator")
        grp = new
    need(len(grp) == n, "wrong-chain", f"chain reaches {len(grp)} of {n} operations")


def lost_generators(plan, ctx, gens, tab, mu, si):
    """A chain that lost the generators adjoined last stops at a subgroup: nothing, or an exception."""
    g = seams.sub_rng("lost", plan["lost"])
    left = list(gens)[int(g.integers(1, len(gens) + 1)) :]
    try:
        out = si.enumerate_unitary_irreps_from_solvable_group_chain(tab.copy(), mu.copy(), left)
    except Exception:
        return
    need(len(out) == 0, "damaged-answered", f"{len(out)} irreps from {len(left)} of {len(gens)} generators of {len(tab)} operations")


def check_indicators(out, ind, tab, mu, n):
    need(len(ind) == len(out), "malformed-output", "one indicator per irrep")
    selfconj = np.abs(mu.imag).max() < 1e-9
    for j, x in enumerate(out):
        want = int(np.rint(np.einsum("kij,kji->", x, x).real / n)) if selfconj else 0
        if selfconj or np.abs(mu.imag).max() > 1e-3:
            need(int(ind[j]) == want, "wrong-indicator", f"irreps[{j}]: {ind[j]}, expected {want}")


def decompose(plan, ctx, out, n, tab, mu, si):
    g = seams.sub_rng("mult", plan["mult"])
    mult = g.integers(0, 4, len(out))
    while np.sum(mult * [x.shape[1] for x in out]) > 24:
        mult[int(np.argmax(mult * [x.shape[1] for x in out]))] -= 1
    if not mult.any():
        mult[int(g.integers(len(out)))] = 1
    blocks = [out[j] for j, m in enumerate(mult) for _ in range(m)]
    d = sum(x.shape[1] for x in blocks)
    rep = C.block_sum(blocks, C.haar(g, d) if g.random() < 0.7 else np.eye(d)[g.permutation(d)])
    res = ctx.call(si.decompose_representation, rep)
    O.check_shape(res, n, "decomposition")
    res = [np.asarray(x) for x in res]
    law(res, tab, mu, 1e-6, "decomposition")
    cs, co = O.chars(res), O.chars(out)
    hit = []
    for a, x in enumerate(res):
        e = O.unitary_error(x)
        need(e < 1e-6, "not-unitary", f"decomposition[{a}] error {e:.2e}")
        m = [abs(np.vdot(c, cs[a])) / n for c in co]
        j = int(np.argmax(m))
        need(abs(m[j] - 1) < 1e-3 and abs(np.vdot(cs[a], cs[a]).real / n - 1) < 1e-3, "reducible", f"decomposition[{a}]")
        need(mult[j] > 0, "wrong-component", f"decomposition[{a}] is not contained")
        hit.append(j)
    need(len(set(hit)) == len(hit), "duplicate", "a component is reported twice")
    need(set(hit) == {j for j, m in enumerate(mult) if m}, "incomplete", f"{len(hit)} of {int((mult > 0).sum())} components")


def intertwine(plan, ctx, out, n, sr):
    g = seams.sub_rng("mult", plan["mult"])
    j = int(g.integers(len(out)))
    x = out[j]
    d = x.shape[1]
    V = C.haar(g, d)
    y = np.einsum("ia,kab,jb->kij", V, x, V.conj())
    U = np.asarray(ctx.call(sr.get_intertwiner, x, y))
    need(U.shape == (d, d) and np.isfinite(U).all(), "malformed-output", "intertwiner")
    e = np.abs(x @ U - U @ y).max()
    need(e < 1e-6, "not-intertwiner", f"error {e:.2e}")
    need(abs(np.linalg.det(U) - 1) < 1e-6, "wrong-determinant", f"det = {np.linalg.det(U)}")
    need(np.abs(U @ U.conj().T - np.eye(d)).max() < 1e-6, "not-unitary", "intertwiner")
    for l, z in enumerate(out):
        if l != j and z.shape == x.shape:
            U = np.asarray(ctx.call(sr.get_intertwiner, x, z))
            need(np.abs(U).max() < 1e-6, "not-intertwiner", "non-zero matrix between inequivalent irreps")
            break
    p = np.asarray(ctx.call(sr.get_direct_product, x, y))
    q = np.array([np.kron(a, b) for a, b in zip(x, y)])
    need(p.shape == q.shape and np.abs(p - q).max() < 1e-9, "wrong-product", "get_direct_product")


def realify(plan, ctx, out, n, tab, mu, si, sr):
    """Realification of irreps with a real factor system."""
    if np.abs(mu.imag).max() > 1e-9:
        return
    for j, x in enumerate(out):
        ind = int(ctx.call(sr.frobenius_schur_indicator, x))
        want = int(np.rint(np.einsum("kij,kji->", x, x).real / n))
        need(ind == want, "wrong-indicator", f"irreps[{j}]: {ind}, expected {want}")
        y = np.asarray(ctx.call(si.get_physically_irrep, x, ind))
        d = x.shape[1] * (1 if ind == 1 else 2)
        need(y.shape == (n, d, d) and np.isrealobj(y) and np.isfinite(y).all(), "malformed-output", f"real form {y.shape} {y.dtype}")
        e = O.law_error(y, tab, mu.real)
        need(e < 1e-6, "not-homomorphism", f"real form of irreps[{j}] error {e:.2e}")
        need(O.unitary_error(y) < 1e-6, "not-unitary", f"real form of irreps[{j}]")
        c, cx = np.einsum("kii->k", y), np.einsum("kii->k", x)
        e = np.abs(c - (cx if ind == 1 else 2 * cx.real)).max()
        need(e < 1e-6, "wrong-character", f"real form of irreps[{j}] error {e:.2e}")


def shrink(plan):
    yield from C.shrink_spec(plan)
    yield from C.smaller_halls(plan)
    if plan["gauge"]:
        yield dict(plan, gauge=None)
    for f in ("one", "space", "spin"):
        if plan["factor"] != f:
            yield dict(plan, factor=f)
    for m in range(1, 6):
        if plan["mult"] != m:
            yield dict(plan, mult=m)
