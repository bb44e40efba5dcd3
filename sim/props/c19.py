"""C19: operation lists damaged on their way to the library are refused."""

from __future__ import annotations

import numpy as np

from . import c06
from . import common as C
from .common import O, W, need, seams

RUNS = {"quick": 22000, "thorough": 225000}
RULE = (
    "one run = one list of operations (or one answer of the symmetry finder) in which one or two operations were lost, "
    "repeated, garbled, given another time-reversal flag or joined by a centring translation, one entry point, one method and "
    "one environment; non-trivial when what is left at the k-vector is not a group; distinct by (damage, entry, order, answer "
    "or kind of refusal) and digest"
)
COMPONENTS = {
    "real": ["spgrep.core", "spgrep.group", "spgrep.irreps", "spgrep.pointgroup", "spgrep.spinor", "spgrep.corep", "spgrep.tensor", "spglib.get_pointgroup", "LAPACK"],
    "stub": C.SHIMS + ["answers of spglib damaged by the simulator"],
}
ASSUMPTIONS = [
    "damage is to rotations and time-reversal flags; translations that contradict each other are outside the domain and not judged",
]
LINEAR = ["prim", "prim", "pg", "unitary", "spin", "spinpg", "tensor"]
MAGNETIC = ["mag", "magpg"]


def gen(rng, i):
    api = (LINEAR * 2 + MAGNETIC * 3 + ["conv", "conv", "magconv"])[rng.integers(len(LINEAR) * 2 + len(MAGNETIC) * 3 + 3)]
    plan = {"api": api, "method": C.method(rng), "world": W.gen_world(rng), "lat": int(rng.integers(1, 1 << 30))}
    kinds = ["lose", "lose", "repeat", "repeat", "garble", "stale", "zero", "foreign"]
    if api in ("prim", "spin"):
        kinds += ["centred"] * 3
    if api in MAGNETIC:
        kinds += ["flag"] * 3
    plan["damage"] = [[kinds[rng.integers(len(kinds))], int(rng.integers(1 << 30))] for _ in range(1 if rng.random() < 0.8 else 2)]
    if api in ("conv", "magconv"):
        # rotations of a cell that is not primitive are rounded on their way: garbled ones are not judged there
        kinds = ["lose", "lose", "repeat", "stale"] + ["flag"] * (api == "magconv")
        plan["damage"] = [[kinds[rng.integers(len(kinds))], int(rng.integers(1 << 30))] for _ in range(1 + int(rng.integers(2)))]
    if api == "conv":
        plan["cell"] = W.gen_cell_spec(rng)
        plan["k"] = W.gen_k(rng, None)
        if rng.random() < 0.5:
            plan["k"] = [0.0, 0.0, 0.0]
        return plan
    if api == "magconv":
        plan["rec"] = int(rng.integers(len(W.mag_records())))
        plan["k"] = [0.0, 0.0, 0.0] if rng.random() < 0.5 else W.gen_k(rng, None)
        return plan
    plan["ops"] = W.gen_mops_spec(rng) if api in MAGNETIC else W.gen_ops_spec(rng)
    if api in ("pg", "spinpg", "magpg", "unitary", "tensor"):
        plan["ops"]["origin"] = plan["ops"]["lshift"] = None
    else:
        b = W.build_ops(plan["ops"])
        plan["k"] = W.gen_k(rng, b[0], b[2] if len(b) > 2 else None)
    return plan


class Refused(Exception):
    pass


def ask(ctx, fn, *args, **kwargs):
    out, exc, _ = ctx.attempt(fn, *args, **kwargs)
    if exc is not None:
        raise Refused(type(exc).__name__)
    return out


def closed(R, q):
    """Different operations whose products are all in the list."""
    R = np.rint(np.asarray(R)).astype(np.int64)
    q = np.asarray(q).astype(int)
    seen = {(R[i].tobytes(), int(q[i])) for i in range(len(R))}
    if len(seen) < len(R):
        return False
    RR = np.einsum("iab,jbc->ijac", R, R)
    return all((RR[i, j].tobytes(), int(q[i] ^ q[j])) in seen for i in range(len(R)) for j in range(len(R)))


def run(plan, ctx):
    import spgrep
    from spgrep.irreps import enumerate_unitary_irreps
    from spgrep.tensor import get_symmetry_adapted_tensors

    api, kw = plan["api"], {"method": plan["method"]}
    z = ind = al = None
    k = np.array(plan.get("k", [0.0, 0.0, 0.0]))
    if api in ("conv", "magconv"):
        return run_conv(plan, ctx)
    b = W.build_ops(plan["ops"])
    R, T = b[:2]
    q = b[2] if len(b) > 2 else np.zeros(len(R), dtype=int)
    if api in ("pg", "spinpg", "magpg", "unitary", "tensor"):
        idx = C.distinct_rotations(R, q)
        R, q = R[idx], q[idx]
        T = np.zeros((len(R), 3))
    L = W.lattice_for(R, plan["lat"])
    r, t, s = seams.damage(plan["damage"], R, T, q, lambda n: W.prim(n)[0])
    for kind, _ in plan["damage"]:
        ctx.fault("list." + kind)
    fixing = np.array(O.stabilizer(r, t, k, s, primitive=True, tol=5e-8), dtype=int)
    rigid = all(np.abs(c @ c.T - np.eye(3)).max() < 1e-6 for c in C.cart_rep(r, L))
    group = len(fixing) > 0 and closed(r[fixing], s[fixing])
    centred = any((r[i] == O.EYE).all() and s[i] == 0 and np.abs(t[i] - np.rint(t[i])).max() > 1e-6 for i in range(len(r)))
    out = None
    try:
        with ctx.world(plan["world"]):
            if api == "prim":
                out, mp = ask(ctx, spgrep.get_spacegroup_irreps_from_primitive_symmetry, r, t, k, **kw)
            elif api == "pg":
                out = ask(ctx, spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, r, **kw)
            elif api == "unitary":
                out, _ = ask(ctx, enumerate_unitary_irreps, r, **kw)
            elif api == "spin":
                out, z, U, mp = ask(ctx, spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L.copy(), r, t, kpoint=k, **kw)
            elif api == "spinpg":
                out, z, U = ask(ctx, spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L.copy(), r, **kw)
            elif api == "mag":
                out, ind, z, U, al, mp = ask(ctx, spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L.copy(), r, t, s, k, **kw)
            elif api == "magpg":
                out, ind, z, U, al = ask(ctx, spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L.copy(), r, s, **kw)
            else:
                rep = C.cart_rep(r, L)
                out = ask(ctx, get_symmetry_adapted_tensors, rep, r, 2, False)
    except Refused as e:
        what = str(e)
        ctx.note(what)
        ctx.cover(api, [d[0] for d in plan["damage"]], len(fixing), what, plan["method"], nontrivial=not group or centred)
        return
    if api in ("pg", "spinpg", "magpg", "unitary", "tensor"):
        mp = np.arange(len(r))
    mp = np.asarray(mp, dtype=int)
    if len(mp) and len(out):
        need(not (centred and api in ("prim", "spin", "mag")), "answered-centred", "operations include a translation that is no vector of a primitive cell")
        need(sorted(mp.tolist()) == fixing.tolist(), "wrong-little-group", f"{len(mp)} operations, {len(fixing)} fix the k-vector")
        need(group, "answered-damaged", f"{len(mp)} operations that are not a group answered with {len(out)} items")
        tab, TT = O.op_table(r[mp], t[mp], s[mp])
        if (tab >= 0).all() and (rigid or api in ("pg", "unitary", "prim")):
            if api in ("pg", "unitary", "prim"):
                C.check_linear(out, mp, r, t, k, fixing.tolist())
            elif api in ("spin", "spinpg"):
                ph = O.translation_phase(k, TT, t[mp], tab)
                O.check_law(out, tab, ph * z)
                O.check_family(out, len(mp), len(mp))
            elif api in ("mag", "magpg"):
                c06.check(out, list(ind), z, U, al, mp, L, r, t, s, k, fixing.tolist(), 1, 1e-6)
            else:
                for x in out:
                    e = max(np.abs(np.einsum("ab,cd,bd->ac", m, m, x) - x).max() for m in C.cart_rep(r, L))
                    need(e < 1e-6, "wrong-value", f"tensor not invariant: {e:.2e}")
    ctx.note(len(out))
    ctx.cover(api, [d[0] for d in plan["damage"]], len(mp), len(out), plan["method"], nontrivial=not group or centred)


def run_conv(plan, ctx):
    """The symmetry finder's own answer is damaged."""
    import spgrep

    k = np.array(plan["k"])
    w = dict(plan["world"], damage=plan["damage"])
    for kind, _ in plan["damage"]:
        ctx.fault("peer-list." + kind)
    s = None
    try:
        if plan["api"] == "conv":
            L, pos, num = W.build_cell(plan["cell"])
            with ctx.world(w):
                out, R, T, mp = ask(ctx, spgrep.get_spacegroup_irreps, L.copy(), pos.copy(), num.copy(), k, method=plan["method"])
        else:
            rec = W.mag_records()[plan["rec"]]
            L, pos, num, mag = (np.array(rec[x]) for x in ("lattice", "positions", "numbers", "magmoms"))
            with ctx.world(w, mag=rec):
                out, z, U, al, R, T, s, mp = ask(ctx, 
                    spgrep.get_spacegroup_spinor_irreps, L.copy(), pos.copy(), num.copy(), magmoms=mag.copy(), kpoint=k, method=plan["method"])
    except Refused as e:
        ctx.note(str(e))
        ctx.cover(plan["api"], [d[0] for d in plan["damage"]], str(e), plan["method"], nontrivial=True)
        return
    mp = np.asarray(mp, dtype=int)
    if len(mp) and len(out):
        s = np.zeros(len(R), dtype=int) if s is None else np.asarray(s).astype(int)
        # operations that differ by a lattice translation of the primitive cell count once
        r, q = np.asarray(R)[mp], s[mp]
        idx = C.distinct_rotations(r, q)
        need(closed(r[idx], q[idx]), "answered-damaged", f"{len(idx)} rotations that are not a group answered with {len(out)} items")
    ctx.note(len(out))
    ctx.cover(plan["api"], [d[0] for d in plan["damage"]], len(mp), len(out), plan["method"], nontrivial=True)


def shrink(plan):
    for i in range(len(plan["damage"])):
        if len(plan["damage"]) > 1:
            yield dict(plan, damage=plan["damage"][:i] + plan["damage"][i + 1 :])
    yield from C.shrink_spec(plan)
    if plan["api"] not in MAGNETIC:
        yield from C.smaller_halls(plan)
    if plan["method"] != "Neto":
        yield dict(plan, method="Neto")
