"""Histories of calls: related calls, isolated references, ambient process state."""

from __future__ import annotations

import contextlib
import json
import os
import pickle
import random as pyrandom
import subprocess
import sys
import warnings

import numpy as np

from . import boot, calls, seams
from . import workload as W
from . import oracle as O
from .oracle import Problem, need

SIBLINGS = [
    ["prim", "small", "primreal", "factor", "regular"],
    ["pg", "pgind", "pgreal", "regular"],
    ["sprim", "spg"],
    ["cprim", "cpg"],
    ["conv", "sconv"],
    ["project", "decompose", "phys", "intertwiner", "tensors"],
    ["little", "cayley", "reg", "projreg", "chain", "spinfs", "smallsp", "unique", "prim", "pgind"],
    ["primmat", "hall", "transform", "prim"],
    ["intrinsic", "character", "direct", "isrep", "checkrep", "fsind", "unitary", "grassmann", "tensors"],
    ["cocycle", "isgroup", "cayley"],
    ["mlittle", "mcayley", "corepfs", "split", "munique", "cprim", "cpg"],
]


def clear_cut(ops, k, tols):
    """Whether the operations that fix k are the same ones however the tolerance is read."""
    b = W.build_ops(ops)
    q = b[2] if len(b) == 3 else None
    return all(
        np.array_equal(*(O.stabilizer(b[0], b[1], k, q, primitive=True, tol=tol * f) for f in (0.1, 10))) for tol in tols
    )


def along(rng, ops, k, d):
    """A direction in which k moves without losing an operation that fixes it, if there is one."""
    b = W.build_ops(ops)
    q = b[2] if len(b) == 3 else np.zeros(len(b[0]), dtype=int)
    fix = O.stabilizer(b[0], b[1], k, q, primitive=True, tol=1e-6)
    v = np.mean([(-1) ** int(q[i]) * b[0][i].T for i in fix], axis=0) @ rng.standard_normal(3)
    return v / np.abs(v).max() if np.abs(v).max() > 1e-3 else d


def variant(rng, spec):
    s = neighbour(rng, spec)
    atol = (s.get("opts") or {}).get("atol")
    if atol and "ops" in s and not clear_cut(s["ops"], np.array(s["k"]), (5e-8, atol)):
        del s["opts"]["atol"]
        s["k"] = spec["k"] if not (spec.get("opts") or {}).get("atol") else [0.0, 0.0, 0.0]
    return s


def neighbour(rng, spec):
    """A call that differs from spec in little: what a cache key or a shared buffer may overlook."""
    s = json.loads(json.dumps(spec))
    m = int(rng.integers(10))
    groups = [g for g in SIBLINGS if s["fn"] in g]
    group = groups[rng.integers(len(groups))] if groups else []
    if m == 0 and len(group) > 1:
        s["fn"] = group[rng.integers(len(group))]
        return s
    if m == 1:
        s["method"] = "random" if s["method"] == "Neto" else "Neto"
        return s
    if m in (2, 3) and "k" in s:
        how = int(rng.integers(4))
        k = np.array(s["k"])
        if how == 0:
            k = k + rng.integers(-1, 2, 3)
        elif how == 1:
            k = -k
        elif how == 2:
            k = rng.integers(-2, 3, 3) / 2
        else:
            k = np.array(W.gen_k(rng))
        s["k"] = [float(x) for x in k]
        return s
    if m >= 8:  # what tells them apart is smaller than a digit or two, or an option
        opts = s.setdefault("opts", {})
        j = int(rng.integers(4))
        if j == 0:
            opts["max_num_random_generations"] = int(rng.integers(1, 7))
        elif j == 1:
            opts["rtol"] = float([1e-5, 1e-6, 1e-4][rng.integers(3)])
        elif "k" in s and "ops" in s:
            d = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [1, -1, 0]][rng.integers(5)])
            if rng.random() < 0.6:
                d = along(rng, s["ops"], np.array(s["k"]), d)
            k = np.array(s["k"]) + d * (1e-6 if j == 2 else float(10 ** rng.uniform(-9, -2)))
            s["k"] = [float(x) for x in k]
            opts["atol"] = float([1e-8, 1e-7, 1e-4][rng.integers(3)])
        return s
    if m == 4 and "lat" in s and rng.random() < 0.5:
        s["turn"] = int(rng.integers(1, 1 << 30))  # the same lengths and angles, another orientation
        return s
    if m == 4 and "lat" in s:
        s["lat"] = int(rng.integers(1, 1 << 30))
        s["mult"] = int(rng.integers(1, 1 << 30))
        return s
    if "ops" in s:
        o = s["ops"]
        if m == 5:
            o["perm"] = int(rng.integers(1, 1 << 30))
        elif m == 6:
            o["lshift"] = int(rng.integers(1, 1 << 30))
            o["origin"] = [float(x) for x in rng.integers(0, 8, 3) / 8]
        elif "hall" in o:
            h = o["hall"] + int([-2, -1, 1, 2][rng.integers(4)])
            if 1 <= h <= 530 and len(W.prim(h)[0]) <= max(16, len(W.prim(o["hall"])[0])):
                o.update(hall=h, M=None)
        else:
            u = o["uni"] + int([-2, -1, 1, 2][rng.integers(4)])
            if 1 <= u <= 1651 and len(W.mprim(u)[0]) <= max(32, len(W.mprim(o["uni"])[0])):
                o.update(uni=u, M=None)
    elif "cell" in s:
        c = s["cell"]
        if m % 2:
            c["seed"] = int(rng.integers(1, 1 << 30))
        else:
            h = c["hall"] + int([-1, 1][rng.integers(2)])
            if 1 <= h <= 530 and len(W.db(h)[0]) <= 48:
                c.update(hall=h)
    elif "rec" in s:
        s["k"] = W.gen_k(rng)
    return s


def in_child(fn):
    """fn() computed in a fork of this process: (value, None) or (None, description)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                blob = pickle.dumps((fn(), None))
            except BaseException as e:
                blob = pickle.dumps((None, f"{type(e).__name__}: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    if not blob:
        return None, "process died"
    return pickle.loads(blob)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def reference(spec, seed):
    """The call alone in a process that has done nothing else."""

    def go():
        c = calls.Call(spec)
        with seams.World({"seed": seed}, mag=c.mag):
            return quiet(c)

    val, err = in_child(go)
    if err is not None:
        raise Problem("exception", f"call in a pristine process: {err}")
    return val


def fresh_interpreter(spec, seed, hashseed):
    """The call alone in a new interpreter with another hash seed."""
    p = subprocess.run(
        [sys.executable, "-m", "sim.onecall"], input=json.dumps({"spec": spec, "seed": seed}).encode(),
        cwd=boot.VERIF, env=boot.python_env(hashseed), capture_output=True, timeout=120,
    )
    if p.returncode:
        raise Problem("exception", "call in a new interpreter: " + p.stderr.decode()[-300:])
    return pickle.loads(p.stdout)


@contextlib.contextmanager
def host(seed):
    """Process-wide numpy settings as numpy starts with them, or as another application left them."""
    err = [{"divide": "warn", "over": "warn", "under": "ignore", "invalid": "warn"}, {"all": "warn"}][seed % 4 == 3]
    show = {"threshold": 4, "edgeitems": 1, "precision": 1, "suppress": True} if seed % 4 == 1 else {}
    with np.errstate(**err), np.printoptions(**show):
        yield


def ambient():
    """Process-wide state a library call has no business changing."""
    st = np.random.get_state()
    po = np.get_printoptions()
    return {
        "numpy.random global stream": (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        "random global stream": pyrandom.getstate(),
        "numpy error handling": sorted(np.geterr().items()),
        "numpy print options": sorted((k, repr(v)) for k, v in po.items()),
        "warning filters": [tuple(map(repr, f)) for f in warnings.filters],
        "environment": sorted(os.environ.items()),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
    }


def ambient_unchanged(a, b, when):
    for k in a:
        need(a[k] == b[k], "global-state", f"{k} changed by {when}")


def digests(out):
    return [calls.freeze(x)[4] for x in calls.out_arrays(out)]


def shares(outs, ins):
    for x in outs:
        for y in ins:
            if x.size and y.size and np.shares_memory(x, y):
                return True
    return False
