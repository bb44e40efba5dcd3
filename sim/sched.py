"""Seeded scheduler for caller threads, and an injector of interrupts, both at step grain.

Threads are real ``threading.Thread`` objects, but only the one holding the baton runs; the baton
moves at the step points of spgrep's own code (see steps.py), where the plan says so.  A plan is a list
of segments ``[steps, choice]``: run so many steps, then hand over to the choice-th of the others.
When the list is used up the current thread runs to its end.  Nothing depends on real time.
"""

from __future__ import annotations

import math
import sys
import threading

from . import seams, steps

_Thread = threading.Thread
_RealLock = threading.Lock
_RealRLock = threading.RLock
ACTIVE: "Scheduler | None" = None


class Killed(KeyboardInterrupt):
    """Asynchronous exception delivered by the simulator."""


class Scheduler:
    def __init__(self, first, segments, values=False, kill=None, max_steps=4_000_000):
        self.segments = [list(s) for s in segments]
        self.values = values
        self.kill = kill or {}  # thread index -> step at which it gets Killed
        self.max_steps = max_steps
        self.first = first
        self.jobs = []
        self.trace = []  # (thread, function) at every hand-over
        self.steps = []
        self.switches = 0
        self.blocked = 0

    def add(self, fn, world):
        self.jobs.append((fn, world))

    # -- running -------------------------------------------------------------------
    def run(self):
        """-> list of (value, exception) per job"""
        global ACTIVE
        n = len(self.jobs)
        self.baton = [_orig_lock() for _ in range(n)]
        for b in self.baton:
            b.acquire()
        self.done = [False] * n
        self.steps = [0] * n
        self.out = [(None, None)] * n
        self.all_done = _orig_lock()
        self.all_done.acquire()
        self.index = {}
        self.left = self.segments.pop(0) if self.segments else None
        self.cur = self.first % n
        saved = seams.WORLD
        ACTIVE = self
        if not steps.ON:
            raise RuntimeError("spgrep was imported without step points")
        steps.HOOK = self._hook
        threads = [_Thread(target=self._body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        self._give(self.cur)
        self.all_done.acquire()
        for t in threads:
            t.join()
        ACTIVE = None
        steps.HOOK = None
        seams.WORLD = saved
        return self.out

    def _give(self, i):
        self.cur = i
        seams.WORLD = self.jobs[i][1]
        self.baton[i].release()

    def _body(self, i):
        self.baton[i].acquire()
        self.index[threading.get_ident()] = i
        fn, _ = self.jobs[i]
        try:
            self.out[i] = (fn(), None)
        except BaseException as e:
            self.out[i] = (None, e)
        self.done[i] = True
        self.trace.append((i, "end"))
        others = [j for j in range(len(self.done)) if not self.done[j]]
        if others:
            self._give(others[self._choice() % len(others)])
        else:
            self.all_done.release()

    def _choice(self):
        if self.left is not None:
            c = self.left[1]
            self._next()
            return c
        return 0

    def _next(self):
        self.left = self.segments.pop(0) if self.segments else None

    def _hook(self, kind, where):
        if kind and not self.values:
            return
        i = self.index.get(threading.get_ident())
        if i is not None and not self.done[i]:
            self._step(i, where)

    def _step(self, i, where):
        self.steps[i] += 1
        if self.steps[i] == self.kill.get(i):
            raise Killed("injected into thread %d" % i)
        if self.steps[i] > self.max_steps:
            raise RuntimeError("step limit")
        if self.left is None:
            return
        self.left[0] -= 1
        if self.left[0] <= 0:
            self._yield(i, where)

    def _yield(self, i, where):
        others = [j for j in range(len(self.done)) if not self.done[j] and j != i]
        c = self._choice()
        if not others:
            return
        self.trace.append((i, where))
        self.switches += 1
        self._give(others[c % len(others)])
        self.baton[i].acquire()

    def waiting(self):
        """The running thread cannot go on: let another run.  False when there is none."""
        i = self.index.get(threading.get_ident())
        if i is None or i != self.cur:
            return False
        others = [j for j in range(len(self.done)) if not self.done[j] and j != i]
        if not others:
            return False
        self.blocked += 1
        if self.blocked > 100000:
            raise RuntimeError("deadlock among caller threads")
        self.trace.append((i, "lock"))
        self._give(others[self.blocked % len(others)])
        self.baton[i].acquire()
        return True


class SimLock:
    """A lock made by spgrep: contention hands the baton over instead of blocking the process."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            if ACTIVE is None or not ACTIVE.waiting():
                return self._l.acquire(True)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _orig_lock():
    return seams._ORIG.get("threading.Lock", _RealLock)()


def install():
    """Locks created by spgrep modules become SimLocks."""
    seams._ORIG["threading.Lock"] = _RealLock
    seams._ORIG["threading.RLock"] = _RealRLock

    def lock():
        l = _RealLock()
        return SimLock(l) if seams._from_spgrep() else l

    def rlock():
        l = _RealRLock()
        return SimLock(l) if seams._from_spgrep() else l

    threading.Lock = lock
    threading.RLock = rlock


def _stepping(fn, on_step, values):
    if not steps.ON:
        raise RuntimeError("spgrep was imported without step points")

    def hook(kind, where):
        if values or not kind:
            on_step(where)

    steps.HOOK = hook
    try:
        return fn()
    finally:
        steps.HOOK = None


def pick_steps(fn, fractions, values=False, by_site=False):
    """Step numbers of an undisturbed call, one for each fraction in [0, 1).

    by_site: every statement that runs is as likely as any other, however often it runs.
    """
    n = [0]
    at: dict = {}

    def on_step(where):
        n[0] += 1
        if by_site:
            f = sys._getframe(3)
            at.setdefault((where, f.f_lineno, f.f_lasti), []).append(n[0])

    _stepping(fn, on_step, values)
    if not by_site:
        return [1 + int(f * n[0]) for f in fractions]
    sites = list(at.values())
    out = []
    for f in fractions:
        x = f * len(sites)
        hits = sites[int(x)]
        # the first and the last time are special as often as not
        y = (x - int(x)) * 2
        out.append(hits[int(y * len(hits))] if y < 1 else hits[0] if y < 1.5 else hits[-1])
    return out


def interrupted(fn, at, exc, values=False, for_good=False):
    """Call fn, raising exc at its at-th step (and every later one).  -> (value, exception, where)"""
    n = [0]
    hit = [None]

    def on_step(where):
        n[0] += 1
        if n[0] == at or (for_good and n[0] > at):
            hit[0] = where
            raise exc

    try:
        v, e = _stepping(fn, on_step, values), None
    except BaseException as err:
        v, e = None, err
    return v, e, hit[0]


def gen_segments(rng, n_threads):
    """Hand-over plan at one of several grains."""
    grain = int(rng.integers(4))
    hi = [4, 30, 300, 3000][grain]
    m = int([400, 200, 80, 20][grain])
    m = int(rng.integers(1, m + 1))
    seg = []
    first = int(2 ** rng.uniform(0, 11.5))
    for a in range(m):
        steps = first if a == 0 else int(2 ** rng.uniform(0, math.log2(hi)))
        seg.append([max(1, steps), int(rng.integers(n_threads))])
    return seg


def shrink_segments(seg):
    n = len(seg)
    if n > 1:
        yield seg[: n // 2]
        yield seg[n // 2 :]
        yield seg[:-1]
        if n <= 12:
            for a in range(n):
                yield seg[:a] + seg[a + 1 :]
        # merge neighbours: two hand-overs fewer
        for a in range(0, n - 2, max(1, n // 8)):
            yield seg[:a] + [[seg[a][0] + seg[a + 2][0], seg[a + 2][1]]] + seg[a + 3 :]
    for a in range(min(n, 6)):
        if seg[a][0] > 1:
            yield seg[:a] + [[seg[a][0] // 2, seg[a][1]]] + seg[a + 1 :]
