"""C09: unlucky random draws and failing peers: retried, or reported, never a wrong answer."""

from __future__ import annotations

import numpy as np

import warnings

from .. import calls, sched, session
from . import common as C
from .common import W, need

RUNS = {"quick": 13000, "thorough": 187500}
RULE = (
    "one run = one call of any entry point with one injected fault: some draws of the retry loops degenerate, all draws "
    "degenerate or no retries allowed, a LAPACK routine failing to converge or to allocate at its n-th use, or spglib "
    "answering nothing or raising; then the same call again without the fault; non-trivial when the fault was reached; "
    "distinct by (entry point, fault, position, outcome, dimensions) and execution digest"
)
COMPONENTS = {
    "real": ["all spgrep modules", "spglib.get_pointgroup", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + [C.RECORDED_PEER],
}
ASSUMPTIONS = ["a failure may be reported as an exception, or as a warning together with an empty answer"]


def gen(rng, i):
    kernel = ["project", "project", "decompose", "tensors", "intertwiner", "phys"]
    fault = ["draws", "attempts", "attempts", "draws", "exhaust", "exhaust", "lapack", "lapack", "lapack", "peer", "alloc", "alloc", "alloc"][rng.integers(13)]
    names = None
    if fault == "peer":
        names = list(calls.CELLS) * 2 + ["prim", "pg", "sprim", "cprim"]
    elif fault in ("lapack", "alloc") and rng.random() < 0.35:
        names = calls.AUX
    elif fault == "attempts":
        names = list(GEN_OPT) * 3 + ["intertwiner", "decompose", "phys"] * 6
    elif fault in ("lapack", "alloc", "draws") and rng.random() < 0.25:
        names = kernel
    spec = calls.gen(rng, names, max_order=48)
    plan = {"call": spec, "fault": fault, "world": {"seed": int(rng.integers(1, 1 << 30))}}
    w = plan["world"]
    if fault == "attempts":
        spec["method"] = "random" if rng.random() < 0.6 else spec["method"]
        if rng.random() < 0.85:
            spec["opts"]["max_num_random_generations"] = int([1, 2, 3, 5, 6, 7, 8][rng.integers(7)])
        plan["kind"] = ["zeros", "zeros", "const", "rank1", "eye"][rng.integers(5)]
    elif fault == "draws":
        m = 4
        if rng.random() < 0.4 and "max_num_random_generations" in GEN_OPT.get(spec["fn"], ()):
            m = int([2, 3, 6, 9][rng.integers(4)])
            spec["opts"]["max_num_random_generations"] = m
        local = bool(rng.random() < 0.4)
        first = 0 if local else int(rng.integers(0, 6))
        if local or rng.random() < 0.5:
            bad = list(range(first, first + m - 1))
        else:
            bad = sorted(int(x) for x in rng.choice(12, m - 1, replace=False))
        w["rng"] = {"bad": bad, "kind": ["zeros", "const", "rank1", "eye"][rng.integers(4)], "mode": ["real", "reseed"][rng.integers(2)]}
        if local:
            w["rng"]["local"] = True
    elif fault == "exhaust":
        if rng.random() < 0.5 and "max_num_random_generations" in GEN_OPT.get(spec["fn"], ()):
            spec["opts"]["max_num_random_generations"] = 0
        else:
            start = int([0, 0, 2, 4, 7][rng.integers(5)])
            w["rng"] = {"bad": list(range(start, 5000)), "kind": ["zeros", "zeros", "const", "rank1", "eye"][rng.integers(5)]}
    elif fault == "lapack":
        # which of the routines the call uses, and which use of it, as fractions
        w["lapack_fail"] = {
            "fn": None, "pick": round(float(rng.random()), 4), "pos": round(float(rng.random()) ** int(rng.integers(1, 4)), 4),
            "exc": ["LinAlgError", "MemoryError"][rng.integers(2)],
        }
        if rng.random() < 0.3:
            w["lapack_fail"]["every"] = True
    elif fault == "alloc":
        plan["at"] = round(float(rng.random()), 5)
        plan["every"] = bool(rng.random() < 0.3)
        plan["by_site"] = bool(rng.random() < 0.6)
    else:
        w["peer_fault"] = {"at": int(rng.integers(0, 3)), "kind": ["none", "raise", "memory"][rng.integers(3)]}
    return plan


_G = ("max_num_random_generations",)
GEN_OPT = {n: _G for n in calls.ALL if n not in ("project", "tensors", "factor")}


def run(plan, ctx):
    c = calls.Call(plan["call"])
    before = c.snapshot()
    w = ctx.world(resolve(plan, ctx), mag=c.mag)
    fault = plan["fault"]
    if fault == "alloc":
        out, exc, ws = no_memory(plan, ctx, c, w)
    else:
        with w:
            out, exc, ws = ctx.attempt(c)
    reached = bool(w.faults) or bool(ctx.faults)
    if c.name in calls.AUX:
        c.ref = session.reference(plan["call"], plan["world"]["seed"])
    if plan["call"]["opts"].get("max_num_random_generations") == 0:
        ctx.fault("retry.none_allowed")
        reached = True
    outcome = "ok"
    if exc is not None:
        outcome = type(exc).__name__
        need(reached, "exception", f"without a fault: {outcome}: {exc}")
        if fault in ("draws", "attempts"):
            need(False, "not-retried", f"{outcome}: {exc}")
        need(isinstance(exc, Exception), "exception", outcome)
    elif c.empty(out):
        outcome = "empty"
        try:
            c.check(out)
            outcome = "ok"  # nothing is the right answer
        except Exception:
            need(reached, "incomplete", "empty answer without a fault")
            need(fault not in ("draws", "attempts"), "not-retried", "empty answer although an attempt was left")
            need(len(ws) > 0, "silent-failure", "empty answer without warning")
    else:
        try:
            c.check(out)
        except C.Problem as p:
            need(False, "wrong-answer", f"{fault}: {p.kind}: {p.detail}; warnings: {ws[:1]}")
    need(c.snapshot() == before, "input-modified", "arguments differ after the call")
    n = w.counts.get("random", 0)
    need(n <= 40000, "no-progress", f"{n} draws")
    # faults stop: the same caller succeeds
    plain = ctx.world({"seed": plan["world"]["seed"]}, mag=c.mag)
    spec = dict(plan["call"], opts={})
    c2 = calls.Call(spec)
    with plain:
        out2 = ctx.call(c2)
    c2.ref = getattr(c, "ref", None)
    c2.check(out2)
    ctx.note(outcome, len(ws) > 0)
    ctx.cover(plan["call"]["fn"], plan["call"]["method"], fault, str(w.lapack_fail or w.peer_fault or ""), outcome, nontrivial=reached)


def all_but_last(plan):
    """Degenerate draws in every attempt but the last of the call's retry loops."""
    world = plan["world"]
    m = plan["call"]["opts"].get("max_num_random_generations", 4)

    def draws(allowed=None, bad=False):
        spec = dict(plan["call"], opts=dict(plan["call"]["opts"]))
        if allowed is not None:
            spec["opts"]["max_num_random_generations"] = allowed
        d = calls.Call(spec)
        cfg = dict(world, rng={"bad": list(range(5000)), "kind": "zeros"}) if bad else world
        with session.seams.World(cfg, mag=d.mag) as wd:
            session.quiet(d)
        return list(wd.draws.values())

    plain, err = session.in_child(lambda: draws())
    need(err is None, "exception", f"without a fault: {err}")
    # what one attempt draws: what one attempt more adds when every attempt fails
    few, _ = session.in_child(lambda: draws(m, True))
    more, _ = session.in_child(lambda: draws(m + 1, True))
    if not few or not more or not plain:
        return world
    per = more[0] - few[0]
    if per == 0:
        per = plain[0]  # one attempt more is not used: what the first one draws
    if per < 1 or any(n != per for n in plain):
        return world
    return dict(world, rng={"bad": list(range(per * (m - 1))), "kind": plan["kind"], "local": True})


def resolve(plan, ctx):
    """The world of the plan, with the failing use of LAPACK chosen among those the call makes."""
    world = plan["world"]
    if plan["fault"] == "attempts":
        return all_but_last(plan)
    lf = world.get("lapack_fail")
    if not lf or lf.get("fn"):
        return world

    def measure():
        d = calls.Call(plan["call"])
        with session.seams.World({k: v for k, v in world.items() if k != "lapack_fail"}, mag=d.mag) as wd:
            session.quiet(d)
        return {k[7:]: v for k, v in sorted(wd.counts.items()) if k.startswith("lapack.")}

    used, err = session.in_child(measure)
    need(err is None, "exception", f"without a fault: {err}")
    if not used:
        return {k: v for k, v in world.items() if k != "lapack_fail"}
    fn = sorted(used)[int(lf["pick"] * len(used))]
    return dict(world, lapack_fail=dict(lf, fn=fn, at=int(lf["pos"] * used[fn])))


def no_memory(plan, ctx, c, w):
    """The call with memory running out at one statement of spgrep, for once or for good."""

    def measure():
        d = calls.Call(plan["call"])
        with session.seams.World(plan["world"], mag=d.mag):
            return session.quiet(lambda: sched.pick_steps(d, [plan["at"]], True, plan.get("by_site")))

    places, err = session.in_child(measure)
    need(err is None, "exception", f"under tracing: {err}")
    at = places[0]
    with w, warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out, exc, where = sched.interrupted(c, at, MemoryError("injected: allocation failed"), True, for_good=plan["every"])
    ctx.calls += 1
    ctx.ticks += at
    if where is not None:
        ctx.fault("alloc.fail" + (".for_good" if plan["every"] else ""))
        w.event("alloc", where)
    return out, exc, [str(r.message) for r in rec if not issubclass(r.category, DeprecationWarning)]


def shrink(plan):
    if plan.get("every"):
        yield dict(plan, every=False)
    for s in calls.simplify(plan["call"]):
        if "max_num_random_generations" in plan["call"]["opts"]:
            s = dict(s, opts=plan["call"]["opts"])
        yield dict(plan, call=s)
    r = plan["world"].get("rng")
    if r and len(r["bad"]) > 12:
        yield dict(plan, world=dict(plan["world"], rng=dict(r, bad=list(range(12)))))
    if r and len(r["bad"]) > 1 and plan["fault"] == "draws":
        for b in r["bad"]:
            yield dict(plan, world=dict(plan["world"], rng=dict(r, bad=[x for x in r["bad"] if x != b])))
