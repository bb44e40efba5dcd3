"""C14: replicas that describe one crystal differently agree on its representations."""

from __future__ import annotations

import numpy as np

from .. import calls, session
from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 9750, "thorough": 162500}
RULE = (
    "one run = two simulated hosts asked for the representations of one group at one k-vector, described in another operation "
    "order, with coset representatives shifted by lattice vectors, in another basis of the same lattice, about another origin, "
    "with k shifted by a reciprocal lattice vector or given in the other host's basis, by the other method, with another random "
    "stream and other free choices of LAPACK; non-trivial when some irrep has dimension 2 or the little group more than 2 "
    "operations; distinct by entry point, transformations, dimensions and execution digest"
)
COMPONENTS = {
    "real": ["all spgrep modules", "spglib.get_pointgroup", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + [C.RECORDED_PEER],
}
ASSUMPTIONS = ["real representations are compared at time-reversal invariant k-vectors", "bases whose rotation entries are -1, 0 or 1 for the point-group and primitive entry points"]

NAMES = ["prim", "small", "primreal", "pgind", "pgreal", "sprim", "spg", "cprim", "cpg", "conv", "sconv", "cconv", "tensors", "project"]


def gen(rng, i):
    spec = calls.gen(rng, [NAMES[rng.integers(len(NAMES))]], max_order=192)
    if spec["fn"] == "primreal":
        spec["k"] = W.trim_k(rng)
    plan = {"a": spec, "method": C.method(rng), "to": {}}
    nm = spec["fn"]
    plan["world_a"] = W.gen_world(rng, peer=nm in calls.CELLS)
    plan["world_b"] = W.gen_world(rng, peer=nm in calls.CELLS)
    to = plan["to"]
    if nm in calls.CELLS:
        if rng.random() < 0.4:
            to["G"] = [int(x) for x in rng.integers(-2, 3, 3)]
        if nm == "cconv":
            return plan
        if rng.random() < 0.5:
            to["M"] = W.unimod(rng, 2).tolist()
        if rng.random() < 0.6:
            to["origin"] = [float(x) for x in (rng.integers(0, 24, 3) / 24 if rng.random() < 0.3 else rng.random(3))]
        if rng.random() < 0.5:
            to["atoms"] = int(rng.integers(1, 1 << 30))
        return plan
    if rng.random() < 0.6:
        to["perm"] = int(rng.integers(1, 1 << 30))
    if nm in ("tensors", "project"):
        return plan
    if rng.random() < 0.5:
        M = W.unimod(rng)
        b = W.build_ops(spec["ops"])
        if np.abs(W.conj_ops(b[0], b[1], M)[0]).max() <= 1:
            to["M"] = M.tolist()
    if nm in ("prim", "small", "primreal", "sprim", "cprim"):
        if rng.random() < 0.5:
            to["lshift"] = int(rng.integers(1, 1 << 30))
        if rng.random() < 0.4:
            to["origin"] = [float(x) for x in (rng.integers(0, 8, 3) / 8 if rng.random() < 0.5 else rng.random(3))]
        if rng.random() < 0.3:
            to["G"] = [int(x) for x in rng.integers(-2, 3, 3)]
    return plan


def transform(c, to):
    """Second description of the same group.  -> new arrays and, per new operation, its old index."""
    R, T, q, k, L = c.R, c.T, c.q, c.k, c.L
    n = len(R)
    old_T = T
    if to.get("origin") is not None:
        o = np.array(to["origin"])
        T = T + o - np.einsum("kij,j->ki", R, o)
    shift = np.zeros((n, 3))
    if to.get("lshift"):
        shift = seams.sub_rng("c14", to["lshift"]).integers(-2, 3, (n, 3)).astype(float)
        pure = (R == np.eye(3, dtype=int)).all(axis=(1, 2))
        shift[pure] = 0
    if to.get("origin") is not None:
        pure = (R == np.eye(3, dtype=int)).all(axis=(1, 2))
        T = np.where(pure[:, None], old_T, T)
    T = T + shift
    k2 = k + np.array(to.get("G") or [0, 0, 0])
    if to.get("M") is not None:
        M = np.array(to["M"])
        R2, T2 = W.conj_ops(R, T, M)
        L2, k2 = M.T @ L, M.T @ k2
    else:
        R2, T2, L2 = R, T, L
    p = seams.sub_rng("c14p", to["perm"]).permutation(n) if to.get("perm") else np.arange(n)
    return R2[p], T2[p], None if q is None else q[p], k2, L2, p, shift


def second(c, plan):
    """The other host's call, arguments replaced by the transformed ones."""
    spec = dict(plan["a"], method=plan["method"])
    d = calls.Call(spec)
    R, T, q, k, L, p, shift = transform(c, plan["to"])
    nm = c.name
    inv = np.argsort(p)
    e = sorted(int(inv[x]) for x in c.exp)
    d.R, d.T, d.q, d.k, d.L, d.exp = R, T, q, k, L, e
    kw = {"method": plan["method"]}
    if nm in ("prim", "primreal"):
        d.args, d.kwargs = [R, T, k], dict(kw, real=nm == "primreal")
    elif nm == "small":
        d.args, d.kwargs = [R[e], T[e], k], kw
    elif nm == "pgind":
        d.args, d.kwargs = [R], kw
    elif nm == "pgreal":
        d.args, d.kwargs = [R], dict(kw, real=True)
    elif nm == "sprim":
        d.args, d.kwargs = [L, R, T], dict(kw, kpoint=k)
    elif nm == "spg":
        d.args, d.kwargs = [L, R], kw
    elif nm == "cprim":
        d.args, d.kwargs = [L, R, T, q, k], kw
    elif nm == "cpg":
        d.args, d.kwargs = [L, R, q], kw
    d.args = [np.array(x) for x in d.args]
    return d, p, shift


def reps_of(c, out):
    """(irreps, mapping into the operation list, SU(2) matrices or None, indicators or None)"""
    nm = c.name
    if nm in ("prim", "primreal"):
        return out[0], np.asarray(out[1]), None, None
    if nm == "small":
        return out[0], np.array(c.exp), None, out[1]
    if nm == "pgind":
        return out[0], np.array(c.exp), None, out[1]
    if nm == "pgreal":
        return out, np.array(c.exp), None, None
    if nm == "sprim":
        return out[0], np.asarray(out[3]), out[2], None
    if nm == "spg":
        return out[0], np.array(c.exp), out[2], None
    if nm == "cprim":
        return out[0], np.asarray(out[5]), out[3], out[1]
    return out[0], np.array(c.exp), out[3], out[1]


def same_set(ca, cb, ia, ib, tol, what):
    need(len(ca) == len(cb), "replicas-disagree", f"{what}: {len(ca)} and {len(cb)} representations")
    if ia is not None:
        need(len(ia) == len(ib), "replicas-disagree", f"{what}: {len(ia)} and {len(ib)} indicators")
        if len(ia) != len(ca):
            ia = None
    free = set(range(len(cb)))
    for a, x in enumerate(ca):
        hit = [b for b in free if np.abs(x - cb[b]).max() < tol and (ia is None or int(ia[a]) == int(ib[b]))]
        need(hit, "replicas-disagree", f"{what}: characters of irreps[{a}] of one host are not those of any on the other")
        free.discard(hit[0])


def run(plan, ctx):
    c = calls.Call(plan["a"])
    nm = c.name
    with ctx.world(plan["world_a"], mag=c.mag):
        A = ctx.call(c)
    if nm in calls.CELLS:
        d, back = second_cell(c, plan, A)
    elif nm in ("tensors", "project"):
        d = calls.Call(plan["a"])
        p = seams.sub_rng("c14p", plan["to"]["perm"]).permutation(len(c.R)) if plan["to"].get("perm") else np.arange(len(c.R))
        d.args[0] = d.args[0][p]
        d.args[1] = d.args[1][p]
    else:
        d, p, shift = second(c, plan)
    with ctx.world(plan["world_b"], mag=d.mag):
        B = ctx.call(d)
    for k in plan["to"]:
        ctx.fault("replica." + k)
    tol = 1e-5
    if nm in ("tensors", "project"):
        need(len(A) == len(B), "replicas-disagree", f"{len(A)} and {len(B)} results")
        if len(A):
            def span(X):
                V = np.array([np.asarray(x).reshape(-1) for x in X]) if nm == "tensors" else np.concatenate([np.asarray(x) for x in X])
                q_, _ = seams._ORIG["qr"](V.T)
                return q_ @ q_.conj().T
            e = np.abs(span(A) - span(B)).max()
            need(e < tol, "replicas-disagree", f"{nm}: the spans differ by {e:.2e}")
        ctx.note(len(A))
        ctx.cover(nm, len(A), tuple(plan["to"]), nontrivial=len(A) > 0)
        return
    if nm in calls.CELLS:
        return run_cells(plan, ctx, c, A, B, tol, back)
    ia, ma, Ua, da = reps_of(c, A)
    ib, mb, Ub, db_ = reps_of(d, B)
    need(sorted(p[mb].tolist()) == sorted(ma.tolist()), "replicas-disagree", f"little groups of {len(ma)} and {len(mb)} operations")
    if not len(ia) or not len(ib):
        need(len(ia) == len(ib), "replicas-disagree", "one host has no answer")
    pos = {int(o): a for a, o in enumerate(ma)}
    row = np.array([pos[int(o)] for o in p[mb]])  # host b's operation -> row in host a's result
    lin = np.ones(len(row), dtype=bool) if c.q is None else c.q[ma[row]] == 0
    sgn = np.ones(len(row))
    if Ua is not None:
        ov = np.einsum("kij,kij->k", np.conj(np.asarray(Ua)[row]), np.asarray(Ub)).real / 2
        need(np.abs(ov - 1).max() < tol, "replicas-disagree", f"SU(2) matrices of one Cartesian rotation differ, overlap {ov.min():.3f}")
        sgn = np.sign(ov)
    ph = np.exp(-2j * np.pi * shift[ma[row]] @ c.k)
    ca = [O.chars([np.asarray(x)])[0][row] * sgn for x in ia]
    cb = [O.chars([np.asarray(x)])[0] for x in ib]
    ca = [(x * ph)[lin] for x in ca]
    cb = [x[lin] for x in cb]
    same_set(ca, cb, da, db_, tol, nm)
    ctx.note([np.sort_complex(np.round(x, 3)) for x in ca], [np.sort_complex(np.round(x, 3)) for x in cb])
    ctx.cover(nm, tuple(sorted(plan["to"])), len(ma), C.dims(ia), plan["a"]["method"], plan["method"], nontrivial=len(ma) > 2 or max(C.dims(ia)) > 1)


def parts(nm, o):
    if nm == "conv":
        return o[0], o[1], o[2], None, o[3], None
    if nm == "sconv":
        return o[0], o[3], o[4], None, o[5], o[2]
    return o[0], o[4], o[5], np.asarray(o[6]).astype(int), o[7], o[2]


def second_cell(c, plan, A):
    """The same crystal in another basis of its cell, about another origin, atoms in another order.

    -> the call, and what brings its operations back to the first description
    """
    to, nm = plan["to"], c.name
    d = calls.Call(dict(plan["a"], method=plan["method"]))
    M, s = np.array(to.get("M") or np.eye(3)), np.array(to.get("origin") or [0.0, 0, 0])
    _, Ra, Ta, qa, _, _ = parts(nm, A)
    npt = len(O.pure_translations(np.asarray(Ra), np.asarray(Ta), qa))
    k = c.k + npt * np.array(to.get("G") or [0, 0, 0])
    if nm != "cconv":
        L, pos, num = d.args
        pos = (pos + s) @ np.linalg.inv(M).T
        if to.get("atoms"):
            g = seams.sub_rng("atoms", to["atoms"])
            p = g.permutation(len(num))
            pos, num = pos[p] + g.integers(-1, 2, pos.shape), num[p]
        d.args = [M.T @ L, pos, num]
    d.kwargs["kpoint"] = M.T @ k

    def back(R, T):
        R = np.array([np.rint(M @ r @ np.linalg.inv(M)) for r in R]).astype(int)
        return R, np.asarray(T) @ M.T - s + R @ s

    return d, back


def run_cells(plan, ctx, c, A, B, tol, back):
    nm = c.name
    ia, Ra, Ta, qa, ma, Ua = parts(nm, A)
    ib, Rb, Tb, qb, mb, Ub = parts(nm, B)
    need(len(Ra) == len(Rb) and len(ma) == len(mb), "replicas-disagree", f"{nm}: {len(Ra)}/{len(ma)} and {len(Rb)}/{len(mb)} operations")
    Ra, Ta, Rb, Tb, ma, mb = (np.asarray(x) for x in (Ra, Ta, Rb, Tb, ma, mb))
    Rb, Tb = back(Rb, Tb)
    row, ph, lin = [], [], []
    for b in mb:
        for a in range(len(ma)):
            o = ma[a]
            dt = Tb[b] - Ta[o]
            if np.array_equal(Ra[o], Rb[b]) and np.abs(dt - np.rint(dt)).max() < 1e-4 and (qa is None or qa[o] == qb[b]):
                row.append(a)
                ph.append(np.exp(-2j * np.pi * np.dot(c.k, np.rint(dt))))
                lin.append(qa is None or qa[o] == 0)
                break
        else:
            need(False, "replicas-disagree", f"{nm}: an operation of one little group is not in the other")
    row, ph, lin = np.array(row), np.array(ph), np.array(lin)
    sgn = np.ones(len(row))
    if Ua is not None:
        ov = np.einsum("kij,kij->k", np.conj(np.asarray(Ua)[row]), np.asarray(Ub)).real / 2
        need(np.abs(ov - 1).max() < tol, "replicas-disagree", f"SU(2) matrices of one rotation differ, overlap {ov.min():.3f}")
        sgn = np.sign(ov)
    ca = [(O.chars([np.asarray(x)])[0][row] * sgn * ph)[lin] for x in ia]
    cb = [O.chars([np.asarray(x)])[0][lin] for x in ib]
    same_set(ca, cb, None, None, 1e-4, nm)
    ctx.note([np.sort_complex(np.round(x, 3)) for x in cb])
    ctx.cover(nm, tuple(sorted(plan["to"])), len(ma), C.dims(ia), plan["a"]["method"], plan["method"], nontrivial=len(ma) > 2 or max(C.dims(ia)) > 1)


def shrink(plan):
    for key in ("world_a", "world_b"):
        for w in W.simplify_world(plan[key]):
            yield dict(plan, **{key: w})
    for key in list(plan["to"]):
        yield dict(plan, to={a: b for a, b in plan["to"].items() if a != key})
    for s in calls.simplify(plan["a"]):
        if plan["to"].get("M") is None or s.get("ops", {}).get("M") == plan["a"].get("ops", {}).get("M"):
            yield dict(plan, a=s)
    if plan["method"] != "Neto":
        yield dict(plan, method="Neto")
