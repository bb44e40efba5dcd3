"""Execution of one plan: one seed, one exactly repeatable run, in a process of its own."""

from __future__ import annotations

import importlib
import json
import os
import select
import signal
import time
import traceback
import warnings

import numpy as np

from . import seams
from .oracle import Problem

_time = time.time
_mono = time.monotonic


class Ctx:
    """What a run uses to reach the code under test; collects what happened."""

    def __init__(self, plan):
        self.plan = plan
        self.worlds = []
        self.notes = []
        self.faults = {}
        self.ticks = 0
        self.key = ()
        self.nontrivial = False
        self.warnings = []
        self.calls = 0
        self.coin = seams.digest(sorted(plan.items()))

    def world(self, cfg=None, mag=None):
        w = seams.World(cfg, mag)
        self.worlds.append(w)
        return w

    def call(self, fn, *args, **kwargs):
        """Call into spgrep; anything but a normal return is a violation."""
        self.calls += 1
        try:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                out = fn(*args, **self.leave_out(fn, kwargs))
        except Problem:
            raise
        except Exception as e:
            raise Problem("exception", f"{getattr(fn, '__name__', fn)}: {type(e).__name__}: {e}")
        self.warnings = [str(r.message) for r in rec if not issubclass(r.category, DeprecationWarning)]
        return out

    def leave_out(self, fn, kwargs):
        return seams.leave_out(fn, kwargs, self.coin, self.calls) if kwargs else kwargs

    def attempt(self, fn, *args, **kwargs):
        """Call into spgrep under injected faults: returns (result, exception, warnings)."""
        self.calls += 1
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                out, exc = fn(*args, **self.leave_out(fn, kwargs)), None
            except Problem:
                raise
            except BaseException as e:  # KeyboardInterrupt is one of the injected faults
                out, exc = None, e
        ws = [str(r.message) for r in rec if not issubclass(r.category, DeprecationWarning)]
        return out, exc, ws

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def note(self, *values):
        for v in values:
            if isinstance(v, (list, tuple)):
                for x in v:
                    self.note(x)
            elif isinstance(v, np.ndarray) and v.dtype.kind in "fc":
                self.notes.append(seams.digest(np.round(v, 4) + 0.0))
            elif isinstance(v, np.ndarray):
                self.notes.append(seams.digest(v))
            else:
                self.notes.append(repr(v))

    def cover(self, *key, nontrivial=True):
        self.key = key
        self.nontrivial = bool(nontrivial)


def prop_module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def execute(plan) -> dict:
    """Run plan in this process."""
    ctx = Ctx(plan)
    res = {"status": "ok"}
    try:
        mod = prop_module(plan["prop"])
        with np.errstate(all="ignore"):
            mod.run(plan, ctx)
    except Problem as p:
        res = {"status": "violation", "kind": p.kind, "detail": p.detail[:600]}
    except MemoryError as e:
        res = {"status": "harness-error", "detail": "MemoryError " + str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ""
        detail = "".join(traceback.format_exception(e))[-1500:]
        # An oracle that trips over what spgrep returned is a report about spgrep
        own = (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, np.linalg.LinAlgError)
        if any(os.sep + "oracle.py" in f.filename for f in tb) or "numpy" in inner or (ctx.calls and isinstance(e, own)):
            res = {"status": "violation", "kind": "malformed-output", "detail": f"{type(e).__name__}: {e}"[:600], "trace": detail}
        else:
            res = {"status": "harness-error", "detail": detail}
    faults = dict(ctx.faults)
    counts = {}
    for w in ctx.worlds:
        for k, v in w.faults.items():
            faults[k] = faults.get(k, 0) + v
        for k, v in w.counts.items():
            counts[k] = counts.get(k, 0) + v
    res["key"] = list(map(str, ctx.key))
    res["nontrivial"] = ctx.nontrivial
    res["sig"] = seams.digest([w.log for w in ctx.worlds], ctx.notes)
    res["faults"] = faults
    res["counts"] = counts
    res["ticks"] = ctx.ticks + sum(len(w.log) for w in ctx.worlds)
    res["calls"] = ctx.calls
    return res


def run_forked(plan, timeout=60.0) -> dict:
    """Run plan in a fork of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            try:
                out = execute(plan)
            except BaseException as e:  # injected interrupts that escaped a run
                out = {"status": "harness-error", "detail": "escaped " + repr(e)}
            blob = json.dumps(out).encode()
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], _mono() + timeout
    status = "crashed"
    while True:
        left = end - _mono()
        if left <= 0:
            status = "timeout"
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            status = "timeout"
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if status == "timeout":
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)  # stray children of the run
    except OSError:
        pass
    if status != "timeout" and chunks:
        return json.loads(b"".join(chunks))
    return {
        "status": status,
        "kind": "no-progress" if status == "timeout" else "crashed",
        "detail": "run did not finish" if status == "timeout" else "process died",
        "key": [], "nontrivial": False, "sig": status, "faults": {}, "counts": {}, "ticks": 0, "calls": 0,
    }


def judge(plan, timeout=40.0) -> dict:
    """run_forked, with hangs and crashes confirmed once more before they count."""
    res = run_forked(plan, timeout)
    if res["status"] in ("timeout", "crashed"):
        again = run_forked(plan, timeout * 3)
        if again["status"] in ("timeout", "crashed"):
            again["status"] = "violation"
        return again
    return res
