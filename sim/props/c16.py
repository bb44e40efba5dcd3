"""C16: the checkers accept every correct object and reject every corrupted one."""

from __future__ import annotations

import numpy as np

from .. import calls
from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 24000, "thorough": 250000}
RULE = (
    "one run = one stored object (small representations, projective representation, spinor representation, factor system, set of "
    "rotations, unitary matrices, characters) as one host wrote it, hit by at most one storage or transfer fault (flipped bit, "
    "torn or lost write, stale or duplicated block, blocks exchanged, sign or phase lost, other k-vector, other gauge, "
    "truncation), then given to the checker; verdict compared with the law itself; non-trivial when a fault changed the object "
    "or the order exceeds 2; distinct by checker, fault, verdict, order, dimension and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.representation", "spgrep.group", "spgrep.irreps.is_equivalent_irrep"],
    "stub": ["storage between writer and checker (simulated)"],
}
ASSUMPTIONS = ["objects whose law is violated by between 1e-9 and 1e-3 are within or near the documented tolerances and not judged"]

KINDS = ["rep", "space", "spinspace", "cocycle", "group", "unitary", "equiv", "fs"]
FAULTS = ["none", "none", "bit", "torn", "lost", "duplicated", "swapped", "sign", "phase", "conj", "stale_k", "scaled", "transposed"]


def gen(rng, i):
    kind = KINDS[rng.integers(len(KINDS))]
    order = {"cocycle": 8, "group": 48, "equiv": 48, "fs": 24, "unitary": 48}.get(kind, 12)
    ops = W.gen_ops_spec(rng, calls.little_hall(rng, order))
    if rng.random() < 0.2:
        W.skew(rng, ops)
    R, _ = W.build_ops(ops)
    return {
        "kind": kind,
        "ops": ops,
        "k": W.gen_k(rng, R),
        "lat": int(rng.integers(1, 1 << 30)),
        "fault": FAULTS[rng.integers(len(FAULTS))],
        "where": int(rng.integers(1, 1 << 30)),
        "pick": int(rng.integers(1, 1 << 30)),
        "sum": bool(rng.random() < 0.3),
        "conv": bool(rng.random() < 0.25),
        "on_factor": bool(rng.random() < 0.3),
    }


def hit(x, fault, seed):
    """One storage fault on an array whose first axis runs over operations."""
    g = np.random.Generator(np.random.PCG64(seed))
    y = np.array(x)
    if fault == "phase":
        y = y.astype(complex)
    n = len(y)
    a, b = int(g.integers(n)), int(g.integers(n))
    flat = y.reshape(-1)
    if fault == "bit":
        raw = np.ascontiguousarray(y).reshape(-1).view(np.uint64)
        bit = int([63, 62, 61, 55, 54, 53, 52, 51, 50, 48][g.integers(10)])
        raw[int(g.integers(len(raw)))] ^= np.uint64(1 << bit)
        y = raw.view(y.dtype).reshape(y.shape)
    elif fault == "torn":
        flat[int(g.integers(len(flat))) :] = 0
    elif fault == "lost":
        y[a] = 0
    elif fault == "duplicated":
        y[a] = y[b]
    elif fault == "swapped":
        y[[a, b]] = y[[b, a]]
    elif fault == "sign":
        if g.random() < 0.5:
            y[a] = -y[a]
        else:
            flat[int(g.integers(len(flat)))] *= -1
    elif fault == "phase":
        y[a] = y[a] * np.exp(2j * np.pi / int(g.integers(2, 7)))
    elif fault == "conj":
        y = np.conj(y)
        if g.random() < 0.3:
            y[a] = np.conj(y[a])
    elif fault == "scaled":
        y[a] = y[a] * float([2.0, 0.5, 1.01, 1.1][g.integers(4)])
    elif fault == "transposed":
        if y.ndim == 3:
            y = np.swapaxes(y, 1, 2).copy()
    return y


def law(rep, tab, mu):
    with np.errstate(all="ignore"):
        e = np.abs(np.einsum("iab,jbc->ijac", rep, rep) - mu[:, :, None, None] * rep[tab])
    return float(e.max()) if np.isfinite(e).all() else np.inf


def verdict(got, err, what, plan):
    need(isinstance(got, (bool, np.bool_)), "malformed-output", f"{what} returned {type(got).__name__}")
    if err < 1e-9:
        need(bool(got), "rejects-correct", f"{what} rejects an object obeying the law to {err:.1e}")
    elif err > 1e-3:
        need(not got, "accepts-corrupted", f"{what} accepts an object violating the law by {err:.1e} (fault: {plan['fault']})")
    return bool(got)


def projective(r, mu, plan):
    """A projective representation with factor system mu, possibly reducible; not made by spgrep."""
    n = len(r)
    reg = calls.regular_of(O.rot_table(r), mu)
    g = seams.sub_rng("c16", plan["pick"])
    # invariant subspace of the regular representation: eigenspace of a generic commuting Hermitian
    tab = O.rot_table(r)
    h = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    h = h + h.conj().T
    av = np.einsum("kij,jl,kml->im", reg, h, reg.conj()) / n
    vals, vecs = seams._ORIG["eigh"](av)
    groups = []
    i = 0
    while i < n:
        j = i
        while j + 1 < n and vals[j + 1] - vals[i] < 1e-7:
            j += 1
        groups.append(list(range(i, j + 1)))
        i = j + 1
    cols = list(groups[int(g.integers(len(groups)))])
    if plan["sum"] and len(groups) > 1:
        cols = sorted(set(cols + groups[int(g.integers(len(groups)))]))
    V = vecs[:, cols]
    return np.einsum("ia,kij,jb->kab", V.conj(), reg, V), tab


def conventional(plan, k):
    """Little group in the standard cell: rotations, translations, one index per rotation, and which one each is."""
    R, T = W.db(plan["ops"]["hall"])
    e = O.stabilizer(R, T, k, tol=5e-8)
    if len(e) > 24:
        e = O.pure_translations(R, T)
    r, t = R[e], T[e]
    seen, of = {}, []
    for i, x in enumerate(r):
        of.append(seen.setdefault(x.tobytes(), len(seen)))
    first = [of.index(j) for j in range(len(seen))]
    return r, t, first, np.array(of)


def run(plan, ctx):
    from spgrep import group, irreps, representation

    kind, fault = plan["kind"], plan["fault"]
    R, T = W.build_ops(plan["ops"])
    k = np.array(plan["k"])
    verd = x = None
    dim = 0
    if kind in ("rep", "space", "spinspace", "cocycle", "unitary"):
        e = O.stabilizer(R, T, k, primitive=True, tol=5e-8)
        r, t = R[e], T[e]
        full = None
        if plan.get("conv") and kind in ("space", "spinspace"):
            full = conventional(plan, k)
            r, t = full[0][full[2]], full[1][full[2]]
        n = len(r)
        res = np.einsum("iab,a->ib", r, k) - k
        mu = np.exp(-2j * np.pi * np.rint(res) @ t.T)
        z = np.ones((n, n))
        if kind == "spinspace" or (kind in ("rep", "cocycle") and plan["pick"] % 2):
            from .c15 import su2

            tab = O.rot_table(r)
            U = np.array([su2(W.lattice_for(R if full is None else r, plan["lat"]), x) for x in r])
            P = np.einsum("iab,jbc->ijac", U, U)
            z = np.sign(np.real(np.einsum("ijab,ijab->ij", U[tab].conj(), P)))
        if kind == "cocycle":
            fs = mu * z
            x = fs if fault in ("none", "stale_k", "transposed") else hit(fs, fault, plan["where"])
            tab = O.rot_table(r)
            l = x[np.arange(n)[:, None, None], tab[None]] * x[None]
            rr = x[tab][:, :, :] * x[:, :, None]
            err = np.abs(l - rr).max()
            err = float(err) if np.isfinite(err) else np.inf
            with np.errstate(all="ignore"):
                verd = verdict(ctx.call(group.check_cocycle_condition, r.copy(), x), err, "check_cocycle_condition", plan)
            dim = 1
        else:
            D, tab = projective(r, mu * z, plan)
            dim = D.shape[1]
            ph = np.exp(-2j * np.pi * t @ k)
            if kind == "unitary":
                x = hit(D, fault, plan["where"])
                with np.errstate(all="ignore"):
                    e_ = np.abs(np.einsum("kij,klj->kil", x, x.conj()) - np.eye(dim)).max()
                    err = float(e_) if np.isfinite(e_) else np.inf
                    verd = verdict(ctx.call(representation.is_unitary, x), err, "is_unitary", plan)
            elif kind == "rep":
                fs = mu * z
                x = hit(D, "none" if plan.get("on_factor") else fault, plan["where"])
                if plan.get("on_factor"):
                    fs = hit(fs, fault, plan["where"])
                err = law(x, tab, fs)
                if np.all(fs == 1) and plan["pick"] % 3 == 0:
                    verd = verdict(ctx.call(representation.is_representation, x, tab), err, "is_representation", plan)
                else:
                    verd = verdict(ctx.call(representation.is_representation, x, tab, fs), err, "is_representation", plan)
            else:
                if full is not None:
                    r, t, of = full[0], full[1], full[3]
                    D, z = D[of], z[of][:, of]
                    ph = np.exp(-2j * np.pi * t @ k)
                on_z = plan.get("on_factor") and kind == "spinspace" and fault != "stale_k"
                x = hit(D * ph[:, None, None], "none" if on_z else fault, plan["where"])
                if on_z:
                    z = hit(z, fault, plan["where"])
                kk = k
                if fault == "stale_k":
                    kk = k + seams.sub_rng("stale", plan["where"]).integers(1, 6, 3) / 12
                tb, TT = O.op_table(r, t)
                err = law(x, tb, O.translation_phase(kk, TT, t, tb) * z)
                if full is not None:  # equal rotations: equal up to the Bloch phase of the centring between them
                    m = np.array(full[2])[of]
                    with np.errstate(all="ignore"):
                        d = np.abs(x - np.exp(-2j * np.pi * (t - t[m]) @ kk)[:, None, None] * x[m]).max()
                    err = max(err, float(d)) if np.isfinite(d) else np.inf
                args = [r.copy(), t.copy(), kk.copy(), x]
                if kind == "spinspace":
                    args.append(z.copy())
                verd = verdict(ctx.call(representation.check_spacegroup_representation, *args), err, "check_spacegroup_representation", plan)
    elif kind == "group":
        x = R.copy()
        g = seams.sub_rng("grp", plan["where"])
        a = int(g.integers(len(x)))
        if fault == "lost" or fault == "torn":
            x = np.delete(x, a, axis=0)
        elif fault == "duplicated":
            x[a] = x[int(g.integers(len(x)))]
        elif fault == "bit":
            x[a][tuple(g.integers(0, 3, 2))] ^= 1
        elif fault == "sign":
            x[a] = -x[a]
        elif fault == "swapped" and len(x) > 1:
            x = x[g.permutation(len(x))]
        elif fault == "scaled":
            x = np.concatenate([x, x[a : a + 1]])
        if len(x) == 0:
            x = R.copy()
        keys = [y.tobytes() for y in x]
        ok = len(set(keys)) == len(keys) and all((p @ q).tobytes() in set(keys) for p in x for q in x)
        verd = verdict(ctx.call(group.is_matrix_group, x), 0.0 if ok else 1.0, "is_matrix_group", plan)
    elif kind == "equiv":
        irr = calls.irreps_of(O.rot_table(R))
        g = seams.sub_rng("equiv", plan["pick"])
        a, b = int(g.integers(len(irr))), int(g.integers(len(irr)))
        if g.random() < 0.4:
            b = a
        ca, cb = O.chars([irr[a]])[0], O.chars([irr[b]])[0]
        dim = irr[a].shape[1]
        if fault in ("sign", "phase", "conj", "swapped", "lost") and plan.get("on_factor"):
            ca = hit(ca, fault, plan["where"])
            if fault == "phase" and plan["pick"] % 2:
                ca = cb * np.exp(2j * np.pi / (2 + plan["pick"] % 5))
        verd = verdict(ctx.call(irreps.is_equivalent_irrep, ca, cb), float(np.abs(ca - cb).max()), "is_equivalent_irrep", plan)
        v2 = ctx.call(irreps.is_equivalent_irrep, np.conj(ca), np.conj(cb))
        need(bool(v2) == verd, "rejects-correct", "verdict on conjugate characters differs")
        x = ctx.call(representation.get_character, irr[a])
        need(np.abs(np.asarray(x) - O.chars([irr[a]])[0]).max() < 1e-9, "wrong-character", "get_character")
        # vectors transform by a real matrix each, whatever the other factor is
        fac = [(irr[a], irr[b]), (R.astype(float), irr[b]), (irr[a], R.astype(float)), (R, R)][plan["pick"] % 4]
        y = ctx.call(representation.get_direct_product, *fac)
        want = np.array([np.kron(p, q) for p, q in zip(*fac)])
        need(np.shape(y) == want.shape and np.abs(y - want).max() < 1e-9, "wrong-product", "get_direct_product")
    else:
        irr = calls.irreps_of(O.rot_table(R))
        n = len(R)
        g = seams.sub_rng("fs", plan["pick"])
        x = irr[int(g.integers(len(irr)))]
        tab = O.rot_table(R)
        if plan["pick"] % 2:
            from .c15 import su2

            U = np.array([su2(W.lattice_for(R, plan["lat"]), y) for y in R])
            z = np.sign(np.real(np.einsum("ijab,ijab->ij", U[tab].conj(), np.einsum("iab,jbc->ijac", U, U))))
            x, _ = projective(R, z, dict(plan, sum=False))
            want = int(np.rint(np.einsum("kij,kji->", x, x).real / n))
        else:
            c = O.chars([x])[0]
            want = int(np.rint(np.sum(c[tab[np.arange(n), np.arange(n)]]).real / n))
        dim = x.shape[1]
        got = ctx.call(representation.frobenius_schur_indicator, x)
        need(int(got) == want, "wrong-indicator", f"{got}, expected {want}")
        verd = want
        if plan["sum"] and want == 1:
            big = C.block_sum([x, x], C.haar(g, 2 * dim))
            out, exc, _ = ctx.attempt(representation.frobenius_schur_indicator, big)
            need(exc is not None and isinstance(exc, ValueError), "accepts-corrupted", "reducible real representation has an indicator")
    if fault != "none":
        ctx.fault("storage." + fault)
    ctx.note(verd, dim, np.asarray(x) if x is not None else 0)
    ctx.cover(kind, fault, verd, len(R), dim, nontrivial=fault != "none" or len(R) > 2)


def shrink(plan):
    for s in W.simplify_ops(plan["ops"]):
        yield dict(plan, ops=s)
    for k in W.simplify_k(plan["k"]):
        yield dict(plan, k=k)
    for key in ("sum", "conv", "on_factor"):
        if plan.get(key):
            yield dict(plan, **{key: False})
    yield from C.smaller_halls(plan)
