"""Seams: every source of nondeterminism spgrep meets goes through a shim owned by the simulator.

spgrep binds ``spglib`` functions with ``from spglib import ...`` and looks up ``np.linalg.*`` and
``np.random.*`` as attributes, so the shims are installed on ``numpy`` / ``spglib`` once, *before*
spgrep is imported (``install()`` then ``import spgrep``).  A shim that is called outside of an
active :class:`World`, or by code that is not spgrep's, delegates to the original unchanged.

All choices are pure functions of (world seed, seam, call number): nothing here reads a clock, the
OS entropy pool or another generator.
"""

from __future__ import annotations

import hashlib
import inspect
import os
import pickle
import random as pyrandom
import sys
import time as pytime

import numpy as np

_ORIG: dict[str, object] = {}
_INSTALLED = False
WORLD: "World | None" = None

SPGREP_DIR = None  # filled by install()


def digest(*parts) -> str:
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()[:12]


def sub_rng(*key) -> np.random.Generator:
    """Generator that is a pure function of key."""
    d = hashlib.sha256(repr(key).encode()).digest()
    return _ORIG.get("default_rng", np.random.default_rng)(
        int.from_bytes(d[:8], "little")
    )


class InjectedFault(Exception):
    """Raised by the simulator only; never by spgrep."""


class World:
    """One simulated host: its random streams, linear algebra, spglib peer and clock.

    cfg keys (all optional)
      seed          integer; every choice derives from it
      rng           {"mode": "real"|"reseed", "bad": [call numbers], "kind": zeros|const|rank1|eye}
      lapack        list out of eigh, eig, qr, noise
      lapack_only   list of call numbers at which re-choices apply (None: all); used by the minimiser
      lapack_fail   {"fn": name, "at": call number, "exc": LinAlgError|MemoryError, "every": bool}
      peer          {"perm": bool, "shift": bool, "noise": float}
      peer_fault    {"at": call number, "kind": "none"|"raise"|"memory"}
      damage        operations the peer's answer loses, repeats or garbles
      mag_symprec   tolerance at which the recorded magnetic structure shows its symmetry
      clock         {"start": float, "skew": bool}
    """

    def __init__(self, cfg: dict | None = None, mag: dict | None = None):
        cfg = dict(cfg or {})
        self.cfg = cfg
        self.seed = cfg.get("seed", 0)
        self.rng_cfg = cfg.get("rng") or {}
        self.draws: dict[str, int] = {}  # draws from each generator
        self.lapack = set(cfg.get("lapack") or [])
        self.lapack_only = cfg.get("lapack_only")
        self.lapack_fail = cfg.get("lapack_fail")
        self.peer = cfg.get("peer") or {}
        self.peer_fault = cfg.get("peer_fault")
        self.mag = mag
        self.mag_symprec = cfg.get("mag_symprec")
        self.log: list[tuple] = []
        self.counts: dict[str, int] = {}
        self.faults: dict[str, int] = {}
        self.peer_last = None
        self._saved = None
        self._n_gen = 0
        self.first_seed = None
        self._n_rand = 0
        self.now = float((cfg.get("clock") or {}).get("start", 1.0e9))

    # -- bookkeeping -----------------------------------------------------------------
    def call(self, seam: str) -> int:
        n = self.counts.get(seam, 0)
        self.counts[seam] = n + 1
        return n

    def fault(self, kind: str) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def event(self, *what) -> None:
        self.log.append(what)

    def signature(self) -> str:
        return digest(self.log)

    # -- activation ------------------------------------------------------------------
    def __enter__(self):
        global WORLD
        self._saved = WORLD
        WORLD = self
        # unowned global streams: make them a function of the world instead of the process
        self._np_state = np.random.get_state()
        self._py_state = pyrandom.getstate()
        np.random.seed((self.seed * 7919 + 13) % (2**32))
        pyrandom.seed(self.seed * 31 + 7)
        return self

    def __exit__(self, *exc):
        global WORLD
        WORLD = self._saved
        np.random.set_state(self._np_state)
        pyrandom.setstate(self._py_state)
        return False


def _from_spgrep(depth: int = 2) -> bool:
    try:
        name = sys._getframe(depth).f_globals.get("__name__", "")
    except ValueError:
        return False
    return name == "spgrep" or name.startswith("spgrep.")


def _caller(depth: int = 2) -> str:
    f = sys._getframe(depth)
    return f.f_code.co_name


# ------------------------------------------------------------------------------- random


class SimGenerator:
    """Delegates to a numpy Generator; draws can be replaced by degenerate ones."""

    def __init__(self, world: World, gen, label: str, seed=None):
        self._w = world
        self._g = gen
        self._label = label
        self._seed = repr(seed)
        self._local = 0

    def __getattr__(self, name):
        attr = getattr(self._g, name)
        if not callable(attr):
            return attr

        def draw(*args, **kwargs):
            w = self._w
            n = w._n_rand
            w._n_rand += 1
            w.call("random")
            w.draws[self._label] = w.draws.get(self._label, 0) + 1
            out = attr(*args, **kwargs)
            if w.rng_cfg.get("local"):
                # the stream of one seed is unlucky at these positions, whoever starts it and however often
                n, self._local = self._local, self._local + 1
                if w.first_seed is None:
                    w.first_seed = self._seed
                if self._seed != w.first_seed:
                    n = -1
            bad = n in set(w.rng_cfg.get("bad") or [])
            if bad and isinstance(out, np.ndarray) and out.dtype.kind == "f" and out.size:
                kind = w.rng_cfg.get("kind", "zeros")
                if kind == "zeros":
                    out = np.zeros_like(out)
                elif kind == "const":
                    out = np.full_like(out, 0.5)
                elif kind == "rank1":
                    row = out.reshape(-1, out.shape[-1])[0]
                    out = np.broadcast_to(row, out.shape).copy()
                elif kind == "eye" and out.ndim == 2:
                    out = np.eye(*out.shape) * 0.5
                w.fault("rng.bad_draw." + kind)
            w.event("rng", self._label, name, bad)
            return out

        return draw


def _default_rng(*args, **kwargs):
    w = WORLD
    real = _ORIG["default_rng"]
    if w is None or not _from_spgrep():
        return real(*args, **kwargs)
    n = w._n_gen
    w._n_gen += 1
    w.call("default_rng")
    seed = args[0] if args else kwargs.get("seed")
    mode = w.rng_cfg.get("mode", "real")
    if mode == "reseed":
        gen = sub_rng("rng", w.seed, n)
        w.fault("rng.other_stream")
    elif seed is None:
        gen = sub_rng("os-entropy", w.seed, n)
        w.fault("rng.os_entropy")
    else:
        gen = real(*args, **kwargs)
    w.event("default_rng", mode, n)
    return SimGenerator(w, gen, f"g{n}", seed)


# ------------------------------------------------------------------------------- LAPACK


def _haar(rng, n, real):
    a = rng.standard_normal((n, n))
    if not real:
        a = a + 1j * rng.standard_normal((n, n))
    q, r = _ORIG["qr"](a)
    d = np.diagonal(r)
    return q * (d / np.abs(d))


def _clusters(vals, tol):
    out = [[0]]
    for i in range(1, len(vals)):
        if abs(vals[i] - vals[i - 1]) <= tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def _noise(rng, a, scale):
    a = np.asarray(a)
    if a.dtype.kind not in "fc" or a.size == 0:
        return a
    return a * (1 + scale * rng.uniform(-1, 1, size=a.shape))


def _lapack_enter(name):
    w = WORLD
    if w is None or not _from_spgrep(3):
        return None, 0
    n = w.call("lapack")
    w.call("lapack." + name)
    lf = w.lapack_fail
    if lf and lf["fn"] == name and (w.counts["lapack." + name] - 1 == lf["at"] or (lf.get("every") and w.counts["lapack." + name] > lf["at"])):
        w.fault("lapack.fail." + name)
        w.event("lapack", name, "fail")
        if lf.get("exc") == "MemoryError":
            raise MemoryError("injected: allocation failed in %s" % name)
        raise np.linalg.LinAlgError("injected: %s did not converge" % name)
    return w, n


def _enabled(w, name, n):
    return name in w.lapack and (w.lapack_only is None or n in w.lapack_only)


def _eigh(a, *args, **kwargs):
    w, n = _lapack_enter("eigh")
    out = _ORIG["eigh"](a, *args, **kwargs)
    if w is None:
        return out
    if _enabled(w, "eigh", n) and np.ndim(a) == 2 and len(a):
        vals, vecs = np.array(out[0]), np.array(out[1])
        if np.all(np.isfinite(vals)):
            rng = sub_rng("eigh", w.seed, n)
            real = not np.iscomplexobj(vecs)
            scale = max(1e-300, float(np.max(np.abs(vals))))
            for cl in _clusters(vals, 1e-9 * scale):
                vecs[:, cl] = vecs[:, cl] @ _haar(rng, len(cl), real)
            w.fault("lapack.eigh.rechoice")
            w.event("lapack", "eigh", "rechoice", vecs.shape[0])
            return type(out)(vals, vecs) if hasattr(out, "_fields") else (vals, vecs)
    w.event("lapack", "eigh", "plain")
    return out


def _eig(a, *args, **kwargs):
    w, n = _lapack_enter("eig")
    out = _ORIG["eig"](a, *args, **kwargs)
    if w is None:
        return out
    if _enabled(w, "eig", n) and np.ndim(a) == 2 and len(a):
        vals, vecs = np.array(out[0]), np.array(out[1])
        if np.all(np.isfinite(vals)):
            rng = sub_rng("eig", w.seed, n)
            m = len(vals)
            if np.iscomplexobj(a):
                vecs = vecs * np.exp(2j * np.pi * rng.random(m))[None, :]
            else:
                # conjugate pairs of a real matrix keep their LAPACK scaling; others are real up to sign
                isreal = np.abs(np.imag(vals)) == 0
                vecs = vecs * np.where(isreal, rng.choice([-1.0, 1.0], m), 1.0)[None, :]
            if np.iscomplexobj(a) or not np.iscomplexobj(vals):
                perm = rng.permutation(m)
                vals, vecs = vals[perm], vecs[:, perm]
            w.fault("lapack.eig.rechoice")
            w.event("lapack", "eig", "rechoice", m)
            return type(out)(vals, vecs) if hasattr(out, "_fields") else (vals, vecs)
    w.event("lapack", "eig", "plain")
    return out


def _qr(a, *args, **kwargs):
    w, n = _lapack_enter("qr")
    out = _ORIG["qr"](a, *args, **kwargs)
    if w is None:
        return out
    mode = args[0] if args else kwargs.get("mode", "reduced")
    if _enabled(w, "qr", n) and mode == "reduced" and np.ndim(a) == 2:
        q, r = np.array(out[0]), np.array(out[1])
        rng = sub_rng("qr", w.seed, n)
        m = q.shape[1]
        d = np.exp(2j * np.pi * rng.random(m)) if np.iscomplexobj(q) else rng.choice([-1.0, 1.0], m)
        q, r = q * d[None, :], np.conj(d)[:, None] * r
        w.fault("lapack.qr.rechoice")
        w.event("lapack", "qr", "rechoice", m)
        return type(out)(q, r) if hasattr(out, "_fields") else (q, r)
    w.event("lapack", "qr", "plain")
    return out


def _roundoff(name):
    def f(a, *args, **kwargs):
        w, n = _lapack_enter(name)
        out = _ORIG[name](a, *args, **kwargs)
        if w is None:
            return out
        if _enabled(w, "noise", n) and isinstance(out, (np.ndarray, np.floating, np.complexfloating)):
            rng = sub_rng(name, w.seed, n)
            w.fault("lapack.roundoff")
            w.event("lapack", name, "roundoff")
            res = _noise(rng, out, 4e-16)
            return res if np.ndim(out) else res.reshape(())[()]
        w.event("lapack", name, "plain")
        return out

    f.__name__ = name
    return f


# ------------------------------------------------------------------------------- spglib peer


def _peer_enter(name):
    w = WORLD
    if w is None or not _from_spgrep(3):
        return None
    n = w.call("peer")
    w.call("peer." + name)
    pf = w.peer_fault
    if pf and pf["at"] == n:
        w.fault("peer." + pf["kind"])
        w.event("peer", name, pf["kind"])
        if pf["kind"] == "raise":
            raise RuntimeError("injected: spglib failed")
        if pf["kind"] == "memory":
            raise MemoryError("injected: spglib allocation failed")
        return "none"
    return w


def _vary_dataset(w, ds, keys):
    if ds is None:
        return ds
    ds = dict(ds)
    m = len(ds["rotations"])
    rot = np.array(ds["rotations"])
    tra = np.array(ds["translations"], dtype=float)
    rng = sub_rng("peer", w.seed, w.counts["peer"])
    if w.peer.get("shift"):
        pure = np.all(rot == np.eye(3, dtype=int), axis=(1, 2))
        sh = rng.integers(-2, 3, size=tra.shape)
        sh[pure] = 0
        tra = tra + sh
        w.fault("peer.lattice_shift")
    if w.peer.get("perm"):
        # identity translation first, as spglib does; the rest in any order
        first = [
            i
            for i in range(m)
            if np.all(rot[i] == np.eye(3, dtype=int))
            and np.allclose(tra[i], 0)
            and not ("time_reversals" in ds and ds["time_reversals"][i])
        ][:1]
        rest = [i for i in range(m) if i not in first]
        order = first + [rest[i] for i in rng.permutation(len(rest))]
        for k in keys:
            if k == "translations":
                continue
            ds[k] = np.array(ds[k])[order]
        tra = tra[order]
        w.fault("peer.reordered")
    if w.peer.get("noise"):
        pure0 = np.all(np.array(ds["rotations"]) == np.eye(3, dtype=int), axis=(1, 2))
        nz = w.peer["noise"] * rng.uniform(-1, 1, size=tra.shape)
        nz[pure0] = 0
        tra = tra + nz
        w.fault("peer.noise")
    ds["translations"] = tra
    if w.cfg.get("damage"):
        q = ds.get("time_reversals")
        flags = np.zeros(m, dtype=int) if q is None else np.array(q).astype(int)
        r, t, s = damage(w.cfg["damage"], ds["rotations"], ds["translations"], flags)
        ds["rotations"], ds["translations"] = r, t
        if q is not None:
            ds["time_reversals"] = s.astype(bool)
        w.fault("peer.damaged")
    return ds


def damage(what, R, T, q, rotations_of=None):
    """The same list of operations after losing, repeating or garbling some of them."""
    R, T, q = np.array(R), np.array(T, dtype=float), np.array(q)
    for kind, seed in what:
        g = sub_rng("damage", seed)
        n = len(R)
        i, j = int(g.integers(n)), int(g.integers(n))
        if kind == "lose" and n > 1:
            R, T, q = np.delete(R, i, 0), np.delete(T, i, 0), np.delete(q, i, 0)
        elif kind == "repeat":
            R, T, q = np.insert(R, j, R[i], 0), np.insert(T, j, T[i], 0), np.insert(q, j, q[i], 0)
        elif kind == "garble":
            a, b = g.integers(3), g.integers(3)
            R[i, a, b] = {-1: 1, 0: [-1, 1][g.integers(2)], 1: 0}.get(int(R[i, a, b]), 0)
        elif kind == "stale":
            R[i], T[i] = R[j], T[j]
        elif kind == "zero":
            R[i] = 0
        elif kind == "foreign" and rotations_of:
            o = rotations_of(int(g.integers(1, 531)))
            R[i] = o[g.integers(len(o))]
        elif kind == "flag":
            q[i] = 1 - q[i]
        elif kind == "centred":
            c = [[0.5, 0.5, 0.5], [0.5, 0.5, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [2 / 3, 1 / 3, 1 / 3]][g.integers(5)]
            c = np.array(c) + (g.integers(-1, 2, 3) if g.random() < 0.3 else 0)
            R, T, q = np.concatenate([R, R]), np.concatenate([T, T + c]), np.concatenate([q, q])
            if g.random() < 0.5:
                p = g.permutation(len(R))
                R, T, q = R[p], T[p], q[p]
    return R, T, q


def _get_symmetry_dataset(*args, **kwargs):
    w = _peer_enter("get_symmetry_dataset")
    if w == "none":
        return None
    out = _ORIG["get_symmetry_dataset"](*args, **kwargs)
    if w is None:
        return out
    out = _vary_dataset(w, out, ("rotations", "translations"))
    w.peer_last = None if out is None else {k: np.array(out[k]) for k in ("rotations", "translations")}
    w.event("peer", "get_symmetry_dataset", None if out is None else len(out["rotations"]))
    return out


def _isolated(fn, *args, **kwargs):
    """spglib 2.4.0 may crash in this call; run it in a child of its own."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            blob = pickle.dumps(fn(*args, **kwargs))
            with os.fdopen(wfd, "wb") as f:
                f.write(blob)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob) if blob else None


def _get_magnetic_symmetry_dataset(*args, **kwargs):
    w = _peer_enter("get_magnetic_symmetry_dataset")
    if w == "none":
        return None
    if w is None:
        return _ORIG["get_magnetic_symmetry_dataset"](*args, **kwargs)
    cell = args[0] if args else kwargs.get("cell")
    rec = w.mag
    served = False
    try:
        served = rec is not None and all(
            np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-9)
            for a, b in zip(cell, (rec["lattice"], rec["positions"], rec["numbers"], rec["magmoms"]))
        )
    except Exception:
        served = False
    if served and w.mag_symprec is not None and kwargs.get("symprec", args[1] if len(args) > 1 else 1e-5) != w.mag_symprec:
        # a measured structure: its symmetry shows at the tolerance the caller chose and at no smaller one
        w.event("peer", "get_magnetic_symmetry_dataset", "other-symprec")
        return None
    if served:
        out = {
            k: (np.array(v) if isinstance(v, (list, tuple)) else v)
            for k, v in rec.items()
            if k not in ("lattice", "positions", "numbers", "magmoms", "mode", "uni", "type", "keys")
        }
        out["rotations"] = out["rotations"].astype(np.int32)
        out["uni_number"] = rec["uni"]
        out["msg_type"] = rec["type"]
        out["time_reversals"] = out["time_reversals"].astype(bool)
        w.event("peer", "get_magnetic_symmetry_dataset", "recorded")
    else:
        out = _isolated(_ORIG["get_magnetic_symmetry_dataset"], *args, **kwargs)
        w.event("peer", "get_magnetic_symmetry_dataset", "isolated")
    out = _vary_dataset(w, out, ("rotations", "translations", "time_reversals"))
    w.peer_last = (
        None
        if out is None
        else {k: np.array(out[k]) for k in ("rotations", "translations", "time_reversals")}
    )
    return out


def _plain_peer(name):
    def f(*args, **kwargs):
        w = _peer_enter(name)
        if w == "none":
            return None
        out = _ORIG[name](*args, **kwargs)
        if w is not None:
            w.event("peer", name)
        return out

    f.__name__ = name
    return f


# ------------------------------------------------------------------------------- clocks


def _clock(name, scale):
    def f():
        w = WORLD
        if w is None or not _from_spgrep():
            return _ORIG[name]()
        n = w.call("clock")
        rng = sub_rng("clock", w.seed, n)
        step = float(rng.exponential(0.05))
        if (w.cfg.get("clock") or {}).get("skew") and rng.random() < 0.2:
            step = float(rng.uniform(-3600, 3600))
        w.now += step
        w.fault("clock.read")
        return int(w.now * scale) if scale > 1 else w.now

    f.__name__ = name.split(".")[-1]
    return f


def _sleep(sec):
    w = WORLD
    if w is None or not _from_spgrep():
        return _ORIG["time.sleep"](sec)
    w.now += float(sec)


def _urandom(n):
    w = WORLD
    if w is None or not _from_spgrep():
        return _ORIG["os.urandom"](n)
    w.fault("rng.os_entropy")
    return sub_rng("urandom", w.seed, w.call("urandom")).bytes(n)


def install() -> None:
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    if any(m == "spgrep" or m.startswith("spgrep.") for m in sys.modules):
        raise RuntimeError("seams.install() must precede the import of spgrep")
    import spglib

    _ORIG["default_rng"] = np.random.default_rng
    np.random.default_rng = _default_rng
    for name, fn in (
        ("eigh", _eigh),
        ("eig", _eig),
        ("qr", _qr),
        ("inv", _roundoff("inv")),
        ("det", _roundoff("det")),
        ("svd", _roundoff("svd")),
        ("norm", _roundoff("norm")),
    ):
        _ORIG[name] = getattr(np.linalg, name)
        setattr(np.linalg, name, fn)
    for name, fn in (
        ("get_symmetry_dataset", _get_symmetry_dataset),
        ("get_magnetic_symmetry_dataset", _get_magnetic_symmetry_dataset),
        ("get_pointgroup", _plain_peer("get_pointgroup")),
        ("get_spacegroup_type", _plain_peer("get_spacegroup_type")),
        ("get_symmetry_from_database", _plain_peer("get_symmetry_from_database")),
    ):
        _ORIG[name] = getattr(spglib, name)
        setattr(spglib, name, fn)
    for name, scale in (
        ("time", 1),
        ("monotonic", 1),
        ("perf_counter", 1),
        ("time_ns", 10**9),
        ("monotonic_ns", 10**9),
        ("perf_counter_ns", 10**9),
    ):
        _ORIG["time." + name] = getattr(pytime, name)
        setattr(pytime, name, _clock("time." + name, scale))
    _ORIG["os.urandom"] = os.urandom
    os.urandom = _urandom
    _ORIG["time.sleep"] = pytime.sleep
    pytime.sleep = _sleep


# what the documentation says an omitted argument means
OMITTED = {"method": "Neto", "real": False, "kpoint": 0}


def leave_out(fn, kwargs, *coin):
    """The same call with some arguments left out that only say what the documented defaults say."""
    out = dict(kwargs)
    for name, default in OMITTED.items():
        if name not in out or sub_rng("omit", name, *coin).random() < 0.5:
            continue
        given = out[name]
        same = not np.any(given) if name == "kpoint" else given is default or given == default
        p = inspect.signature(fn).parameters.get(name)
        if same and p is not None and p.default is not inspect.Parameter.empty:
            del out[name]
    return out
