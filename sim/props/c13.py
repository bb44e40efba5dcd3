"""C13: rounding-size noise in the inputs, and in linear algebra, does not change the answer."""

from __future__ import annotations

import inspect

import numpy as np

from .. import calls, session
from . import common as C
from .common import W, need, seams

RUNS = {"quick": 20000, "thorough": 250000}
RULE = (
    "one run = one call of any entry point with noise of one amplitude between 1e-16 and 1e-10 (lattices and atoms: 1e-8; a twentieth of the caller's atol or a hundredth of symprec where given) on "
    "its k-vector, translations, lattice, atomic positions or matrices, in an environment with its own round-off, and judged "
    "as the noise-free call: same little group, numbers, dimensions, types and laws; non-trivial when the little group has "
    "more than one operation or a matrix argument; distinct by entry point, noisy arguments, decade and execution digest"
)
COMPONENTS = {
    "real": ["all spgrep modules", "spglib.get_pointgroup", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + [C.RECORDED_PEER, "noise on arguments (simulated)"],
}
ASSUMPTIONS = ["noise well below the documented tolerances (atol, default 1e-8; symprec, default 1e-5), which separate symmetry from asymmetry"]


def gen(rng, i):
    names = calls.AUX_NOISY if rng.random() < 0.2 else None
    spec = calls.gen(rng, names, max_order=int([16, 48][rng.integers(2)]))
    if "k" in spec and rng.random() < 0.6:
        spec["k"] = special(rng)
    if rng.random() < 0.35:
        # the caller knows how noisy the data are and says so
        spec["opts"]["atol"] = float([1e-7, 1e-6, 1e-5][rng.integers(3)])
    if spec["fn"] in ("conv", "sconv") and rng.random() < 0.3:
        spec["opts"]["symprec"] = float([1e-4, 1e-3, 1e-2][rng.integers(3)])
    return {
        "call": spec,
        "amp": float(10 ** rng.uniform(-16, 0)),  # fraction (log) of the largest noise allowed below
        "on": [bool(rng.random() < 0.6) for _ in range(4)],
        "noise": int(rng.integers(1, 1 << 30)),
        "world": W.gen_world(rng, peer=spec["fn"] in calls.CELLS),
    }


def special(rng):
    den = int([1, 2, 3, 4, 6][rng.integers(5)])
    return [float(x) for x in rng.integers(-2 * den, 2 * den + 1, 3) / den]


MAX = {"k": 1e-10, "T": 1e-10, "L": 1e-8, "pos": 1e-8, "rep": 1e-11, "P": 1e-8}


def takes(c, name):
    return name in inspect.signature(c.fn).parameters


def disturb(c, plan):
    g = np.random.Generator(np.random.PCG64(plan["noise"]))
    used = []
    atol = c.kwargs.get("atol", 1e-8)
    top = dict(MAX)
    for kind in ("k", "T"):
        top[kind] = max(top[kind], atol / 20)
    top["pos"] = max(top["pos"], c.kwargs.get("symprec", 0) / 100)
    amps = []

    def put(x, kind, rel=False):
        a = max(1e-16, top[kind] * plan["amp"] ** (1 / 3))
        nz = a * g.uniform(-1, 1, x.shape)
        if np.iscomplexobj(x):
            nz = nz + 1j * a * g.uniform(-1, 1, x.shape)
        if kind not in used:
            used.append(kind)
        amps.append(a)
        if rel == "entry":
            return x * (1 + nz)  # zeros of a regular representation are structural
        return x + (nz * np.abs(x).max() if rel else nz)

    on = plan["on"]
    nm = c.name
    if nm in calls.CELLS:
        if on[0]:
            c.kwargs["kpoint"] = put(c.kwargs["kpoint"], "k")
        if nm != "cconv":
            if on[1]:
                c.args[0] = put(c.args[0], "L", rel=True)
            if on[2]:
                c.args[1] = put(c.args[1], "pos")
        return used, max(amps, default=0)
    lat = {"sprim": 0, "spg": 0, "cprim": 0, "cpg": 0, "spinfs": 0, "corepfs": 0, "smallsp": 0}.get(nm)
    if lat is not None and on[1]:
        c.args[0] = put(c.args[0], "L", rel=True)
    tr = {"prim": 1, "primreal": 1, "small": 1, "factor": 1, "sprim": 2, "cprim": 2, "little": 1, "mlittle": 1, "unique": 1,
          "munique": 1, "transform": 2, "split": 1, "smallsp": 2}.get(nm)
    if tr is not None and on[2]:
        t = put(c.args[tr], "T")
        pure = (c.args[tr - 1] == np.eye(3, dtype=int)).all(axis=(1, 2))
        t[pure] = c.args[tr][pure] if on[3] else t[pure]
        c.args[tr] = t
    kat = {"prim": 2, "primreal": 2, "small": 2, "factor": 2, "cprim": 4, "little": 2, "mlittle": 2, "transform": 3}.get(nm)
    if on[0]:
        if kat is not None:
            c.args[kat] = put(c.args[kat], "k")
        elif nm in ("sprim", "smallsp"):
            c.kwargs["kpoint"] = put(c.kwargs["kpoint"], "k")
    if nm == "transform" and on[1]:
        c.args[0] = put(c.args[0], "P")
    if nm in ("project", "decompose", "intertwiner", "phys", "regular", "tensors", "isrep", "fsind", "unitary", "character", "direct"):
        if on[0]:
            c.args[0] = put(c.args[0], "rep", rel="entry" if nm == "regular" else False)
        if on[1] and nm in ("project", "intertwiner", "direct"):
            c.args[1] = put(c.args[1], "rep")
    if nm in ("checkrep", "cocycle", "projreg"):
        at = 3 if nm == "checkrep" else 1
        if on[0]:
            c.args[at] = put(c.args[at], "rep", rel="entry")
    return used, max(amps, default=0)


def run(plan, ctx):
    c = calls.Call(plan["call"])
    for o in ("atol", "symprec"):
        if o in c.kwargs and not takes(c, o):
            del c.kwargs[o]
    if c.name in calls.AUX:
        clean = dict(plan["call"], opts={})
        c.ref = session.reference(clean, plan["noise"])
    used, amp = disturb(c, plan)
    if c.name in ("conv", "sconv"):
        sp = c.kwargs.get("symprec", 1e-5)
        seen = [C.cell_operations(c.L, c.pos, c.num), C.cell_operations(c.L, c.pos, c.num, sp), C.cell_operations(*c.args, sp)]
        if len({None if x is None else len(x["rotations"]) for x in seen}) > 1:
            return  # a chance near-symmetry of the random crystal: symprec does not separate
    for u in used:
        ctx.fault("noise." + u)
    with ctx.world(plan["world"], mag=c.mag):
        out = ctx.call(c)
    try:
        c.check(out, max(1e-5, 300 * amp, 20 * c.kwargs.get("atol", 0)))
    except C.Problem as p:
        need(False, "noise-changed-answer", f"{c.name}, noise on {used}: {p.kind}: {p.detail}")
    n = len(c.exp) if hasattr(c, "exp") else 2
    ctx.note(*calls.flat(out)[:3])
    ctx.cover(c.name, n, *used, int(np.log10(plan["amp"]) // 3), plan["call"]["method"], nontrivial=bool(used) and n > 1)


def shrink(plan):
    for w in W.simplify_world(plan["world"]):
        yield dict(plan, world=w)
    for a in range(4):
        if plan["on"][a]:
            yield dict(plan, on=[b and a != j for j, b in enumerate(plan["on"])])
    for s in calls.simplify(plan["call"]):
        yield dict(plan, call=s)
