"""C10: results do not depend on the history, the host's randomness or the hash seed."""

from __future__ import annotations

import gc
import random as pyrandom
import warnings

import numpy as np

from .. import calls, session
from . import common as C
from .common import Problem, need

RUNS = {"quick": 6500, "thorough": 70000}
RULE = (
    "one run = a history of 2-6 related calls in one process, interleaved with failing calls, scribbling over returned "
    "arrays and over reused input buffers, reseeding of the global generators and changed print options, each result "
    "compared with the same call in a pristine process (other clocks, entropy, sometimes a new interpreter with another "
    "hash seed); non-trivial when two calls returned something; distinct by the entry points, steps and execution digest"
)
COMPONENTS = {
    "real": ["all spgrep modules", "spglib.get_pointgroup", "spglib.get_symmetry_dataset", "LAPACK"],
    "stub": C.SHIMS + [C.RECORDED_PEER, "clocks, os.urandom, unseeded default_rng (simulated)"],
}
ASSUMPTIONS = ["equal means equal to 1e-7, on one machine with one LAPACK"]


def gen(rng, i):
    names = None
    r = rng.random()
    if r < 0.12:
        names = list(calls.CELLS)
    elif r < 0.7:
        names = [n for n in calls.ALL if n not in calls.CELLS] + calls.AUX
    n = int(rng.integers(1, 4))
    specs = [calls.gen(rng, names, max_order=16 if rng.random() < 0.7 else 48)]
    for _ in range(n):
        s = session.variant(rng, specs[rng.integers(len(specs))])
        if rng.random() < 0.4:
            s = session.variant(rng, s)
        specs.append(s if rng.random() < 0.85 else calls.gen(rng, None, max_order=16))
    steps = []
    ncall = 0
    for _ in range(int(rng.integers(2, 7))):
        m = rng.integers(9)
        if ncall and m == 0:
            steps.append(["scribble", int(rng.integers(ncall))])
        elif ncall and m == 1:
            steps.append(["args", int(rng.integers(ncall))])
        elif m == 2:
            steps.append(["seed", int(rng.integers(1 << 30))])
        elif m == 3:
            steps.append([["printopts", "warnings", "gc"][rng.integers(3)], int(rng.integers(1, 4))])
        elif m == 4:
            kind = ["lapack", "draws", "peer", "badarg"][rng.integers(4)]
            steps.append(["fail", int(rng.integers(len(specs))), kind, int(rng.integers(0, 8))])
        steps.append(["call", int(rng.integers(len(specs))), {"reuse": bool(rng.random() < 0.4), "seed": int(rng.integers(1, 1 << 30))}])
        ncall += 1
    return {"calls": specs, "steps": steps, "seed": int(rng.integers(1, 1 << 30)), "fresh": int(rng.integers(1, 1000)) if rng.random() < 0.01 else 0}


def reuse_buffers(old, new):
    """Hand over the arrays of an earlier call, refilled with the contents of the new ones."""
    a, b = old.args, new.args
    for j in range(min(len(a), len(b))):
        x, y = a[j], b[j]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
            np.copyto(x, y)
            b[j] = x
    x, y = old.kwargs.get("kpoint"), new.kwargs.get("kpoint")
    if x is not None and y is not None:
        np.copyto(x, y)
        new.kwargs["kpoint"] = x


def scribble(arrays, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    for x in arrays:
        if x.flags.writeable and x.size:
            x[...] = g.integers(2, 9, x.shape)


def run(plan, ctx):
    specs = plan["calls"]
    refs = {}
    for j in sorted({s[1] for s in plan["steps"] if s[0] == "call"}):
        if plan.get("fresh"):
            refs[j] = session.fresh_interpreter(specs[j], plan["seed"] + j, plan["fresh"] + j)
            ctx.fault("host.new_interpreter_other_hash_seed")
        else:
            refs[j] = session.reference(specs[j], plan["seed"] + j)
    hist = []  # (call object, result, digests) ; digests None once scribbled on
    last = {}
    inside = None
    for st in plan["steps"]:
        what = st[0]
        if what == "call":
            j = st[1]
            c = calls.Call(specs[j])
            if st[2]["reuse"] and c.name in last:
                reuse_buffers(last[c.name], c)
                ctx.fault("caller.reuses_buffers")
            before = c.snapshot()
            cfg = {"seed": st[2]["seed"]}
            if st[2]["seed"] % 2:
                cfg["clock"] = {"skew": True}
            with ctx.world(cfg, mag=c.mag), session.host(st[2]["seed"]), warnings.catch_warnings(record=True):
                warnings.simplefilter("always")
                amb = session.ambient()
                try:
                    out = c()
                except Exception as e:
                    raise Problem("exception", f"{c.name}: {type(e).__name__}: {e}")
                ctx.calls += 1
                session.ambient_unchanged(amb, session.ambient(), c.name)
            need(c.snapshot() == before, "input-modified", c.name)
            d = calls.difference(out, refs[j])
            need(d is None, "not-reproducible", f"{c.name} after {len(hist)} calls: {d}")
            hist.append([c, out, session.digests(out)])
            last[c.name] = c
        elif what == "scribble":
            h = hist[st[1]]
            arrs = calls.out_arrays(h[1])
            scribble(arrs, 1)
            h[2] = None
            ctx.fault("caller.overwrites_results")
        elif what == "args":
            scribble(hist[st[1]][0].arrays(), 2)
            ctx.fault("caller.overwrites_inputs")
        elif what == "seed":
            np.random.seed(st[1] % (1 << 32))
            pyrandom.seed(st[1])
            ctx.fault("caller.reseeds_global_streams")
        elif what == "printopts":
            np.set_printoptions(precision=st[1], suppress=True, threshold=3)
            ctx.fault("caller.print_options")
        elif what == "warnings":
            warnings.simplefilter(["ignore", "once", "always"][st[1] % 3])
            ctx.fault("caller.warning_filters")
        elif what == "gc":
            gc.collect()
        elif what == "fail":
            fail(ctx, specs[st[1]], st[2], st[3])
    for c, out, dg in hist:
        need(dg is None or dg == session.digests(out), "result-changed-later", f"an array returned by {c.name} was altered by later calls")
    for c, out, dg in hist:
        ctx.note(c.name, *calls.flat(out)[:3])
    ctx.cover(*[s[0] if s[0] != "call" else specs[s[1]]["fn"] for s in plan["steps"]], nontrivial=len(hist) >= 2)


def fail(ctx, spec, kind, at):
    c = calls.Call(spec)
    cfg = {"seed": 5}
    if kind == "lapack":
        cfg["lapack_fail"] = {"fn": ["eigh", "eig", "qr", "inv"][at % 4], "at": at // 4, "exc": "LinAlgError"}
    elif kind == "draws":
        cfg["rng"] = {"bad": list(range(at, 3000)), "kind": "zeros"}
    elif kind == "peer":
        cfg["peer_fault"] = {"at": at % 2, "kind": "none"}
    else:
        c.args[at % len(c.args)] = [np.zeros((2, 3, 3)), None, np.full((1, 3), np.nan), "x"][at % 4]
        ctx.fault("caller.bad_argument")
    with ctx.world(cfg, mag=c.mag):
        ctx.attempt(c)


def shrink(plan):
    st = plan["steps"]
    for a in range(len(st)):
        cut = st[:a] + st[a + 1 :]
        if st[a][0] == "call":
            pos = sum(1 for s in st[:a] if s[0] == "call")
            fixed = []
            for s in cut:
                if s[0] in ("scribble", "args"):
                    if s[1] == pos:
                        continue
                    s = [s[0], s[1] - 1 if s[1] > pos else s[1]]
                fixed.append(s)
            cut = fixed
        if any(s[0] == "call" for s in cut):
            yield dict(plan, steps=cut)
    if plan.get("fresh"):
        yield dict(plan, fresh=0)
    for a, s in enumerate(st):
        if s[0] == "call" and s[2]["reuse"]:
            yield dict(plan, steps=st[:a] + [[s[0], s[1], dict(s[2], reuse=False)]] + st[a + 1 :])
    for j, spec in enumerate(plan["calls"]):
        for s in calls.simplify(spec):
            yield dict(plan, calls=plan["calls"][:j] + [s] + plan["calls"][j + 1 :])
