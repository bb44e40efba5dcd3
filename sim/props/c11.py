"""C11: callers in several threads do not disturb each other."""

from __future__ import annotations

import json
import warnings

import numpy as np

from .. import calls, sched, seams, session
from . import common as C
from .common import need

RUNS = {"quick": 9000, "thorough": 80000}
RULE = (
    "one run = 2-3 caller threads, each with 1-2 related calls, interleaved by the simulated scheduler at statements or "
    "values of spgrep, sometimes one thread killed by an asynchronous exception; every result is compared with the same "
    "call alone in a pristine process; non-trivial when the baton moved between spgrep frames; distinct by entry points, "
    "number of hand-overs and the exact hand-over trace"
)
COMPONENTS = {
    "real": ["all spgrep modules", "threading.Thread", "LAPACK"],
    "stub": C.SHIMS + ["thread scheduler (simulated)", "locks created by spgrep, if any (simulated)", C.RECORDED_PEER],
}
ASSUMPTIONS = ["numpy and spglib calls are atomic: the baton moves only between statements of spgrep itself, or between a value and its use"]
TIMEOUT = 60.0
SWEEP = 12


def gen(rng, i):
    r = rng.random()
    names = [n for n in calls.ALL if n not in calls.CELLS] + calls.AUX if r < 0.9 else list(calls.CELLS)
    sweep = rng.random() < 0.3  # one hand-over per schedule, all over the call
    n = 2 if sweep else int([2, 2, 3][rng.integers(3)])
    order = 8 if sweep else int([4, 8, 12, 24][rng.integers(4)])
    base = calls.gen(rng, names, max_order=order)
    if sweep and "k" in base and rng.random() < 0.4:
        base["k"] = [0.0, 0.0, 0.0]
    jobs = []
    for a in range(n):
        job = []
        for _ in range(1 if sweep or rng.random() < 0.6 else 2):
            m = rng.random()
            s = (
                base
                if m < (0.2 if sweep else 0.35) or not jobs and not job
                else twin(rng, base)
                if m < 0.55
                else session.variant(rng, base)
                if m < 0.85
                else calls.gen(rng, names, max_order=order)
            )
            job.append(s)
        jobs.append(job)
    if rng.random() < 0.4:
        jobs = [[dict(s, method="random") if "method" in s else s for s in job] for job in jobs]
    op = bool(rng.random() < 0.3)
    plan = {
        "jobs": jobs,
        "values": op,
        "first": int(rng.integers(n)),
        "segments": [] if sweep else sched.gen_segments(rng, n),
        "share": bool(rng.random() < 0.5),
        "seed": int(rng.integers(1, 1 << 30)),
    }
    if sweep:
        x = (np.arange(SWEEP) + rng.random(SWEEP)) / SWEEP
        plan["sites"] = [round(float(x[0]), 5)]
        plan["more"] = [{"sites": [round(float(y), 5)]} for y in x[1:]]
    elif rng.random() < 0.5:
        # hand over at a statement, rare ones as likely as frequent ones, here and perhaps in the next thread
        plan["sites"] = [round(float(x), 5) for x in rng.random(1 + int(rng.random() < 0.4))]
        if rng.random() < 0.6:
            plan["segments"] = []
        plan["even"] = bool(rng.random() < 0.4)
        plan["more"] = [
            {"first": int(rng.integers(n)), "sites": [round(float(x), 5) for x in rng.random(1 + int(rng.random() < 0.3))], "segments": []}
            for _ in range(int(rng.integers(3)))
        ]
    if rng.random() < 0.15:
        plan["kill"] = {str(int(rng.integers(n))): int(2 ** rng.uniform(0, 11))}
    return plan


def twin(rng, base):
    """The same sizes and shapes throughout, other numbers."""
    s = json.loads(json.dumps(base))
    if "ops" in s:
        s["ops"]["perm"] = int(rng.integers(1, 1 << 30))
    if "lat" in s:
        s["lat"] = int(rng.integers(1, 1 << 30))
    return s


def schedules(plan):
    """One plan per schedule, its hand-overs as steps until the baton moves, and to whom."""
    out = [dict(plan, **x, more=None) for x in [{}] + (plan.get("more") or [])]
    todo = {}
    for j, p in enumerate(out):
        a = p["first"]
        for b, f in enumerate(p.get("sites") or []):
            todo.setdefault(a, []).append((j, b, f))
            a = next(x for x in range(len(p["jobs"])) if x != a)

    def measure():
        at = {}
        for a, want in todo.items():
            c = calls.Call(plan["jobs"][a][0])
            with seams.World({"seed": plan["seed"] + 17 * a + 1}, mag=c.mag):
                n = session.quiet(lambda: sched.pick_steps(c, [f for _, _, f in want], plan["values"], not plan.get("even")))
            at.update({(j, b): x for (j, b, _), x in zip(want, n)})
        return at

    at = (session.in_child(measure)[0] or {}) if todo else {}
    for j, p in enumerate(out):
        first = [[at[j, b], 0] for b in range(len(p.get("sites") or [])) if (j, b) in at]
        p.update(segments=first + [list(x) for x in p["segments"]], sites=None)
    return out


def share(c, pool):
    def one(x):
        if isinstance(x, np.ndarray):
            return pool.setdefault((x.shape, x.dtype.str, x.strides, x.tobytes()), x)
        return x

    c.args = type(c.args)(one(x) for x in c.args)
    c.kwargs = {k: one(x) for k, x in c.kwargs.items()}


def run(plan, ctx):
    jobs = plan["jobs"]
    memo = {}

    def ref(spec):
        key = repr(spec)
        if key not in memo:
            memo[key] = session.reference(spec, plan["seed"])
        return memo[key]

    for p in schedules(plan):
        once(p, ctx, ref)
    # a later caller in the same process
    c = calls.Call(jobs[0][0])
    with ctx.world({"seed": plan["seed"] + 999}, mag=c.mag):
        out = ctx.call(c)
    d = calls.difference(out, ref(jobs[0][0]))
    need(d is None, "disturbed-later", f"{c.name} after the threads ended: {d}")
    ctx.cover(*[x["fn"] for job in jobs for x in job], ctx.faults["threads.handover"], nontrivial=ctx.faults["threads.handover"] > 0)


def once(plan, ctx, ref):
    jobs = plan["jobs"]
    built, pool = [], {}
    for job in jobs:
        row = []
        for spec in job:
            c = calls.Call(spec)
            if plan["share"]:
                share(c, pool)  # callers hand over the same arrays
            row.append((c, ref(spec), c.snapshot()))
        built.append(row)
    if plan["share"]:
        ctx.fault("threads.shared_inputs")
    kill = {int(a): b for a, b in (plan.get("kill") or {}).items()}
    s = sched.Scheduler(plan["first"], [list(x) for x in plan["segments"]], plan["values"], kill)
    for a, row in enumerate(built):
        w = ctx.world({"seed": plan["seed"] + 17 * a + 1}, mag=row[0][0].mag)

        def body(row=row, w=w):
            outs = []
            for c, _, _ in row:
                w.mag = c.mag
                outs.append(c())
                ctx.calls += 1
            return outs

        s.add(body, w)
    outer = ctx.world({"seed": plan["seed"]})
    with outer, warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        amb = session.ambient()
        res = s.run()
        session.ambient_unchanged(amb, session.ambient(), "concurrent calls")
    ctx.fault("threads.handover", s.switches)
    ctx.ticks += sum(s.steps)
    for a, (row, (outs, exc)) in enumerate(zip(built, res)):
        if isinstance(exc, sched.Killed):
            ctx.fault("threads.killed")
            continue
        if exc is not None and kill and a in kill:
            # the asynchronous exception was turned into another one
            ctx.fault("threads.killed")
            continue
        need(exc is None, "exception", f"thread {a} ({row[0][0].name}): {type(exc).__name__}: {exc}")
        for (c, want, before), out in zip(row, outs):
            d = calls.difference(out, want)
            need(d is None, "disturbed", f"thread {a}, {c.name}: {d}")
            need(c.snapshot() == before, "input-modified", c.name)
    ctx.note(seams.digest(s.trace))


def shrink(plan):
    if plan.get("more"):
        yield from schedules(plan)
        return
    if plan.get("kill"):
        yield {k: v for k, v in plan.items() if k != "kill"}
    for a in range(len(plan["jobs"])):
        if len(plan["jobs"]) > 2:
            yield dict(plan, jobs=plan["jobs"][:a] + plan["jobs"][a + 1 :], kill=None)
        if len(plan["jobs"][a]) > 1:
            for b in range(len(plan["jobs"][a])):
                job = plan["jobs"][a][:b] + plan["jobs"][a][b + 1 :]
                yield dict(plan, jobs=plan["jobs"][:a] + [job] + plan["jobs"][a + 1 :])
    if plan.get("sites"):
        yield from schedules(plan)
        if plan["segments"]:
            yield dict(plan, segments=[])
        if len(plan["sites"]) > 1:
            yield dict(plan, sites=plan["sites"][:1])
    for seg in sched.shrink_segments(plan["segments"]):
        yield dict(plan, segments=seg)
    if plan["share"]:
        yield dict(plan, share=False)
    if plan["values"]:
        yield dict(plan, values=False)
    for a in range(len(plan["jobs"])):
        for b in range(len(plan["jobs"][a])):
            for s in calls.simplify(plan["jobs"][a][b]):
                job = plan["jobs"][a][:b] + [s] + plan["jobs"][a][b + 1 :]
                yield dict(plan, jobs=plan["jobs"][:a] + [job] + plan["jobs"][a + 1 :])
