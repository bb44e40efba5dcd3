"""C12: arguments are never altered or captured; an interrupted call leaves nothing behind."""

from __future__ import annotations

import warnings

import numpy as np

from .. import calls, sched, session
from . import common as C
from .c10 import scribble
from .common import need

RUNS = {"quick": 11000, "thorough": 105000}
RULE = (
    "one run = one call interrupted by KeyboardInterrupt or MemoryError at a chosen statement or value of spgrep, "
    "possibly twice, then the same call and a related one to completion; or one completed call whose arguments and results "
    "are then overwritten in turn; non-trivial when the interrupt was delivered (or the call returned arrays); distinct by "
    "entry point, interrupted function, exception and execution digest"
)
COMPONENTS = {
    "real": ["all spgrep modules", "LAPACK"],
    "stub": C.SHIMS + ["asynchronous exceptions (simulated)", C.RECORDED_PEER],
}
ASSUMPTIONS = ["interrupts are delivered between statements of spgrep, or between a value and its use"]


def gen(rng, i):
    names = [n for n in calls.ALL if n not in calls.CELLS] + calls.AUX if rng.random() < 0.85 else list(calls.CELLS)
    spec = calls.gen(rng, names, max_order=int([4, 8, 16, 24][rng.integers(4)]))
    plan = {"call": spec, "seed": int(rng.integers(1, 1 << 30))}
    if rng.random() < 0.2:
        plan["mode"] = "alias"
        return plan
    plan["mode"] = "interrupt"
    plan["values"] = bool(rng.random() < 0.3)
    plan["at"] = [round(float(x), 5) for x in rng.random(1 + int(rng.random() < 0.3))]
    plan["by_site"] = bool(rng.random() < 0.7)
    plan["exc"] = ["KeyboardInterrupt", "MemoryError"][rng.integers(2)]
    plan["next"] = session.variant(rng, spec)
    return plan


def run(plan, ctx):
    if plan["mode"] == "alias":
        return run_alias(plan, ctx)
    spec = plan["call"]
    ref = session.reference(spec, plan["seed"])
    ref2 = session.reference(plan["next"], plan["seed"])

    def measure():
        c = calls.Call(spec)
        with session.seams.World({"seed": 3}, mag=c.mag):
            return session.quiet(lambda: sched.pick_steps(c, plan["at"], plan["values"], plan.get("by_site")))

    places, err = session.in_child(measure)
    need(err is None, "exception", f"under tracing: {err}")
    c = calls.Call(spec)
    before = c.snapshot()
    hit = []
    for at in places:
        exc = KeyboardInterrupt("injected") if plan["exc"] == "KeyboardInterrupt" else MemoryError("injected")
        with ctx.world({"seed": plan["seed"] + 1}, mag=c.mag), session.host(plan["seed"]), warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            amb = session.ambient()
            out, got, where = sched.interrupted(c, at, exc, plan["values"])
            session.ambient_unchanged(amb, session.ambient(), f"{c.name} interrupted in {where}")
        ctx.calls += 1
        ctx.ticks += at
        need(c.snapshot() == before, "input-modified", f"{c.name} interrupted in {where}")
        if where is None:
            continue
        hit.append(where)
        ctx.fault("interrupt." + plan["exc"])
        if got is None:
            # swallowed: then what it returned must still be right
            d = calls.difference(out, ref)
            need(d is None, "swallowed-interrupt", f"{c.name} in {where}: answered although interrupted: {d}")
        else:
            need(not isinstance(got, AttributeError), "exception", f"{type(got).__name__}: {got}")
    for name, spec2, want in (("next", plan["next"], ref2), ("again", spec, ref)):
        c2 = c if name == "again" else calls.Call(spec2)
        with ctx.world({"seed": plan["seed"] + 2}, mag=c2.mag):
            out = ctx.call(c2)
        d = calls.difference(out, want)
        need(d is None, "left-behind", f"{c2.name} after an interrupt in {hit}: {d}")
    need(c.snapshot() == before, "input-modified", c.name)
    ctx.note(hit)
    ctx.cover(spec["fn"], *hit, plan["exc"], nontrivial=bool(hit))


def run_alias(plan, ctx):
    spec = plan["call"]
    ref = session.reference(spec, plan["seed"])
    c = calls.Call(spec)
    before = c.snapshot()
    with ctx.world({"seed": plan["seed"]}, mag=c.mag):
        out = ctx.call(c)
    need(c.snapshot() == before, "input-modified", c.name)
    dg = session.digests(out)
    scribble(c.arrays(), 3)
    ctx.fault("caller.overwrites_inputs")
    need(session.digests(out) == dg, "aliases-input", f"overwriting an argument of {c.name} changed its result")
    ins = [x.copy() for x in c.arrays()]
    arrs = calls.out_arrays(out)
    for a, x in enumerate(arrs):
        others = session.digests([y for b, y in enumerate(arrs) if b != a])
        scribble([x], 4)
        need(
            session.digests([y for b, y in enumerate(arrs) if b != a]) == others, "results-share-memory",
            f"overwriting one array returned by {c.name} changed another",
        )
    ctx.fault("caller.overwrites_results")
    for x, y in zip(c.arrays(), ins):
        need(np.array_equal(x, y), "aliases-input", f"overwriting a result of {c.name} changed its argument")
    c = calls.Call(spec)
    with ctx.world({"seed": plan["seed"] + 1}, mag=c.mag):
        out = ctx.call(c)
    d = calls.difference(out, ref)
    need(d is None, "result-captured", f"{c.name} after its earlier results were overwritten: {d}")
    ctx.note(*calls.flat(out)[:3])
    ctx.cover(spec["fn"], "alias", nontrivial=bool(arrs))


def shrink(plan):
    for s in calls.simplify(plan["call"]):
        yield dict(plan, call=s)
    if plan["mode"] == "interrupt":
        if len(plan["at"]) > 1:
            for a in plan["at"]:
                yield dict(plan, at=[a])
        if plan["values"]:
            yield dict(plan, values=False)
        if plan["next"] != plan["call"]:
            yield dict(plan, next=plan["call"])
            for s in calls.simplify(plan["next"]):
                yield dict(plan, next=s)
