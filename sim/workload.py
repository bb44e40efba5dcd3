"""Workload: crystals, operation lists and k-vectors described by small JSON specs.

A spec is data only; ``build_*`` turns it into arrays.  The simulator's minimiser edits specs
(``simplify_ops``) so every field has an obvious "plain" value.
"""

from __future__ import annotations

import gzip
import json
import os

import numpy as np

from . import seams

HERE = os.path.dirname(os.path.abspath(__file__))

SYSTEMS = {
    "triclinic": (1, 2),
    "monoclinic": (3, 107),
    "orthorhombic": (108, 348),
    "tetragonal": (349, 429),
    "trigonal": (430, 461),
    "hexagonal": (462, 488),
    "cubic": (489, 530),
}
# Hall numbers of one space group of every crystal class, used for point groups
EYE = np.eye(3, dtype=int)
_CACHE: dict = {}


def o(name):
    """Unshimmed spglib."""
    import spglib

    return seams._ORIG.get(name, getattr(spglib, name))


# --------------------------------------------------------------------------- lattices of centring

CENTRING = {
    "P": np.eye(3),
    "A": np.array([[1, 0, 0], [0, 0.5, -0.5], [0, 0.5, 0.5]]),
    "B": np.array([[0.5, 0, -0.5], [0, 1, 0], [0.5, 0, 0.5]]),
    "C": np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]),
    "I": np.array([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]]),
    "F": np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]),
    "H": np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3,
}


def find_primitive(R, T, tr=None):
    """A primitive basis of the pure translations, found from the operations themselves."""
    q = np.zeros(len(R), dtype=int) if tr is None else np.asarray(tr).astype(int)
    iE = [i for i in range(len(R)) if (R[i] == EYE).all() and q[i] == 0]
    for P in CENTRING.values():
        Pi = np.linalg.inv(P)
        if abs(round(abs(float(np.linalg.det(Pi)))) - len(iE)) > 0:
            continue
        t = np.array([T[i] for i in iE]) @ Pi.T
        if np.abs(t - np.rint(t)).max() > 1e-6:
            continue
        r = np.array([Pi @ x @ P for x in R])
        if np.abs(r - np.rint(r)).max() > 1e-6:
            continue
        return P
    raise RuntimeError("no primitive basis in table")


def to_primitive(R, T, tr=None):
    P = find_primitive(R, T, tr)
    Pi = np.linalg.inv(P)
    r = np.rint(np.array([Pi @ x @ P for x in R])).astype(int)
    t = np.asarray(T) @ Pi.T
    q = np.zeros(len(R), dtype=int) if tr is None else np.asarray(tr).astype(int)
    seen, idx = set(), []
    for i in range(len(r)):
        key = (r[i].tobytes(), int(q[i]))
        if key not in seen:
            seen.add(key)
            idx.append(i)
    t = t[idx] % 1
    t[np.abs(t - 1) < 1e-9] = 0
    # translations of the database are multiples of 1/48 in these bases at worst; keep them exact
    t = np.where(np.abs(t * 48 - np.rint(t * 48)) < 1e-6, np.rint(t * 48) / 48, t)
    return r[idx], t, q[idx], P


def db(hall):
    key = ("db", hall)
    if key not in _CACHE:
        s = o("get_symmetry_from_database")(hall)
        _CACHE[key] = (np.array(s["rotations"]).astype(int), np.array(s["translations"], dtype=float))
    return _CACHE[key]


def prim(hall):
    key = ("prim", hall)
    if key not in _CACHE:
        R, T = db(hall)
        _CACHE[key] = to_primitive(R, T)
    R, T, _, P = _CACHE[key]
    return R.copy(), T.copy(), P


def mdb(uni):
    import spglib

    key = ("mdb", uni)
    if key not in _CACHE:
        s = spglib.get_magnetic_symmetry_from_database(uni)
        _CACHE[key] = (
            np.array(s["rotations"]).astype(int),
            np.array(s["translations"], dtype=float),
            np.array(s["time_reversals"]).astype(int),
        )
    return _CACHE[key]


def mprim(uni):
    key = ("mprim", uni)
    if key not in _CACHE:
        _CACHE[key] = to_primitive(*mdb(uni))
    R, T, q, P = _CACHE[key]
    return R.copy(), T.copy(), q.copy(), P


def msg_type(uni):
    import spglib

    key = ("mtype", uni)
    if key not in _CACHE:
        _CACHE[key] = int(spglib.get_magnetic_spacegroup_type(uni)["type"])
    return _CACHE[key]


def mag_records():
    if "mag" not in _CACHE:
        with gzip.open(os.path.join(os.path.dirname(HERE), "data", "mag.json.gz"), "rt") as f:
            _CACHE["mag"] = json.load(f)
    return _CACHE["mag"]


# --------------------------------------------------------------------------- spec generators


def pick_hall(rng):
    lo, hi = list(SYSTEMS.values())[rng.integers(7)]
    if rng.random() < 0.35:
        lo, hi = list(SYSTEMS.values())[[3, 4, 5, 6][rng.integers(4)]]
    return int(rng.integers(lo, hi + 1))


def unimod(rng, m=3):
    M = np.eye(3, dtype=int)
    for _ in range(rng.integers(0, m + 1)):
        i, j = rng.choice(3, 2, replace=False)
        E = np.eye(3, dtype=int)
        E[i, j] = rng.choice([-1, 1])
        M = M @ E
    if rng.random() < 0.5:
        M = M[:, rng.permutation(3)]
    if rng.random() < 0.15:
        M = -M
    return M


def int_inv(M):
    return np.rint(np.linalg.inv(M)).astype(int)


def skew(rng, spec):
    """A basis far from reduced: rotation entries beyond -1, 0, 1 (spglib's point-group search refuses it)."""
    R = build_ops(dict(spec, M=None, perm=None))[0]
    while True:
        M = np.eye(3, dtype=int)
        for _ in range(rng.integers(2, 6)):
            i, j = rng.choice(3, 2, replace=False)
            E = np.eye(3, dtype=int)
            E[i, j] = rng.choice([-3, -2, -1, 1, 2, 3])
            M = M @ E
        if np.abs(conj_ops(R, R[:, 0], M)[0]).max() <= 25:
            break
    spec.update(M=M.tolist(), skew=True)
    return spec


def conj_ops(R, T, M):
    Mi = int_inv(M)
    return np.array([Mi @ r @ M for r in R]), np.array([Mi @ t for t in T])


def special_k(rng, R, tr=None):
    """k with a non-trivial little group: fixed (mod lattice) by some operation of the list."""
    n = len(R)
    r = np.asarray(R[rng.integers(n)])
    if tr is not None and rng.random() < 0.5:
        r = -r
    # solve (r^T - 1) k = integer: random point on the solution space
    A = r.T - EYE
    u, s, vt = np.linalg.svd(A)
    null = vt[s < 1e-9]
    rank = int((s > 1e-9).sum())
    k0 = np.zeros(3)
    if rank:
        g = A @ rng.integers(-1, 2, 3)  # in range over integers; use fractional lattice of solutions
        den = int([1, 2, 3, 4, 6][rng.integers(5)])
        k0 = rng.integers(-den, den + 1, 3) / den
        res = A @ k0
        if np.abs(res - np.rint(res)).max() > 1e-9:
            k0 = np.zeros(3)
    k = k0
    if len(null):
        # rational direction of the null space when possible
        v = null[0]
        v = v / np.abs(v).max()
        for m in range(1, 7):
            if np.abs(v * m - np.rint(v * m)).max() < 1e-9:
                v = np.rint(v * m)
                break
        k = k0 + v * round(float(rng.uniform(-0.5, 0.5)), 6)
    return k


def gen_k(rng, R=None, tr=None):
    m = rng.integers(0, 10)
    if m == 0:
        k = np.zeros(3)
    elif m in (1, 2):
        k = rng.integers(-2, 3, 3) / 2
    elif m == 3:
        k = rng.integers(-3, 4, 3) / 3
    elif m == 4:
        k = rng.integers(-4, 5, 3) / 4
    elif m == 5:
        u = round(float(rng.random()), 6)
        k = rng.integers(-1, 2, 3) * u + rng.integers(0, 2, 3) / 2
    elif m == 6:
        k = rng.random(3)
    elif m == 7:
        # off a special point by more than any tolerance, by little to the eye
        k = rng.integers(-1, 2, 3) / 2 + rng.integers(-1, 2, 3) * float(10.0 ** -rng.uniform(2, 4.5))
    elif R is not None:
        k = special_k(rng, R, tr)
    else:
        k = rng.integers(-6, 7, 3) / 6
    if rng.random() < 0.15:
        k = k + rng.integers(-3, 4, 3)
    return [float(x) for x in k]


def trim_k(rng):
    return [float(x) for x in rng.integers(-2, 3, 3) / 2]


def gen_ops_spec(rng, hall=None, big=True):
    """Operations of a space group in a primitive cell, in some presentation."""
    hall = pick_hall(rng) if hall is None else hall
    R, T, _ = prim(hall)
    spec = {"hall": hall, "M": None, "origin": None, "lshift": None, "perm": None}
    if rng.random() < 0.5:
        M = unimod(rng)
        R2, _ = conj_ops(R, T, M)
        if np.abs(R2).max() <= 1:
            spec["M"] = M.tolist()
    if rng.random() < 0.5:
        spec["origin"] = [
            float(x) for x in (rng.integers(0, 8, 3) / 8 if rng.random() < 0.5 else rng.random(3))
        ]
    if rng.random() < 0.5:
        spec["lshift"] = int(rng.integers(1, 1 << 30))
    if rng.random() < 0.6:
        spec["perm"] = int(rng.integers(1, 1 << 30))
    return spec


def build_ops(spec):
    """-> rotations (n,3,3) int, translations (n,3)[, time_reversals]"""
    if "uni" in spec:
        R, T, q, _ = mprim(spec["uni"])
    else:
        R, T, _ = prim(spec["hall"])
        q = None
    if spec.get("M") is not None:
        R, T = conj_ops(R, T, np.array(spec["M"]))
    pure = (R == EYE).all(axis=(1, 2))
    if q is not None:
        pure = pure & (q == 0)
    if spec.get("origin") is not None:
        og = np.array(spec["origin"])
        T = T + og - np.einsum("kij,j->ki", R, og)
    T[pure] = 0
    if spec.get("lshift"):
        g = seams.sub_rng("lshift", spec["lshift"])
        s = g.integers(-2, 3, T.shape)
        s[pure] = 0
        T = T + s
    if spec.get("perm"):
        g = seams.sub_rng("perm", spec["perm"])
        p = g.permutation(len(R))
        R, T = R[p], T[p]
        q = None if q is None else q[p]
    if q is None:
        return R, T
    return R, T, q


def gen_mops_spec(rng):
    typ = int([1, 2, 3, 3, 4, 4][rng.integers(6)])
    for _ in range(60):
        uni = int(rng.integers(1, 1652))
        if msg_type(uni) == typ:
            break
    if rng.random() < 0.25:
        # high-order groups are rarer than their weight
        for _ in range(40):
            u = int(rng.integers(1202, 1652))
            if msg_type(u) == typ:
                uni = u
                break
    spec = {"uni": uni, "M": None, "origin": None, "lshift": None, "perm": None}
    R, T, q, _ = mprim(uni)
    if rng.random() < 0.4:
        M = unimod(rng)
        R2, _ = conj_ops(R, T, M)
        if np.abs(R2).max() <= 1:
            spec["M"] = M.tolist()
    if rng.random() < 0.4:
        spec["origin"] = [
            float(x) for x in (rng.integers(0, 8, 3) / 8 if rng.random() < 0.5 else rng.random(3))
        ]
    if rng.random() < 0.4:
        spec["lshift"] = int(rng.integers(1, 1 << 30))
    if rng.random() < 0.5:
        spec["perm"] = int(rng.integers(1, 1 << 30))
    return spec


def gen_presentation(rng):
    """How arrays are handed to the library."""
    return {
        "rot_dtype": "int32" if rng.random() < 0.25 else "int64",
        "order": "F" if rng.random() < 0.2 else "C",
        "readonly": bool(rng.random() < 0.25),
    }


def present(pres, R=None, T=None, k=None, q=None):
    pres = pres or {}
    out = []
    if R is not None:
        R = np.array(R).astype(pres.get("rot_dtype", "int64"))
    if k is not None:
        k = np.array(k, dtype=float)
    if T is not None:
        T = np.array(T, dtype=float)
    res = []
    for a in (R, T, k, q):
        if a is None:
            continue
        a = np.array(a, order=pres.get("order", "C"))
        if pres.get("readonly"):
            a.flags.writeable = False
        res.append(a)
    return res[0] if len(res) == 1 else tuple(res)


# --------------------------------------------------------------------------- lattices and cells


def lattice_for(R, seed, rotate=True, units=True):
    """Row-vector lattice whose metric is invariant under every rotation of R."""
    g = seams.sub_rng("lattice", seed)
    A = np.eye(3) + 0.3 * g.random((3, 3))
    G = A @ A.T
    R = np.asarray(R, dtype=float)
    G = np.einsum("kai,ab,kbj->ij", R, G, R) / len(R)
    L = np.linalg.cholesky(G)
    mode = g.random()
    if rotate and mode < 0.6:
        q, _ = seams._ORIG.get("qr", np.linalg.qr)(g.standard_normal((3, 3)))
        if np.linalg.det(q) < 0:
            q[:, 0] *= -1
        L = L @ q
    elif rotate and mode < 0.75:
        # Cartesian axes permuted: two-fold axes along and against coordinate axes
        L = L[:, [1, 2, 0]] if mode < 0.68 else L @ np.diag([-1.0, -1.0, 1.0])
    if rotate:
        if g.random() < 0.15:
            L = L @ np.diag([1.0, 1.0, -1.0])  # left-handed
        if units and g.random() < 0.3:
            L = L * 10 ** g.uniform(-3, 4)  # other units of length
    return L


def gen_cell_spec(rng, max_ops=200):
    for _ in range(50):
        hall = pick_hall(rng)
        n = len(db(hall)[0])
        M = None
        m = rng.random()
        if m < 0.3:
            M = None
        elif m < 0.55:
            M = unimod(rng, 2)
        elif m < 0.75:
            # supercell, diagonal or not
            M = np.diag(rng.permutation([1, 1, int(rng.integers(2, 4))]))
            if rng.random() < 0.4:
                M = M @ unimod(rng, 1)
        elif m < 0.9:
            M = "primitive"
        det = 1 if M is None or isinstance(M, str) else abs(int(round(np.linalg.det(M))))
        if n * det <= max_ops:
            break
    return {
        "hall": hall,
        "seed": int(rng.integers(1, 1 << 30)),
        "orbits": int(rng.integers(1, 3)) if n > 24 else int(rng.integers(1, 4)),
        "M": M if M is None or isinstance(M, str) else M.tolist(),
        "wyckoff": bool(rng.random() < 0.3),
    }


def build_cell(spec):
    """-> lattice (rows), positions, numbers"""
    R, T = db(spec["hall"])
    g = seams.sub_rng("cell", spec["seed"])
    L = lattice_for(R, spec["seed"], units=False) * (3 * max(4, len(R)) ** (1 / 3))
    pos, num = [], []
    for s in range(spec["orbits"]):
        x = g.random(3)
        if spec.get("wyckoff") and s:
            x = g.integers(0, 4, 3) / 4
        orb = []
        for r, t in zip(R, T):
            y = (r @ x + t) % 1
            if all(np.abs((y - z + 0.5) % 1 - 0.5).max() > 1e-4 for z in orb):
                orb.append(y)
        pos += orb
        num += [s] * len(orb)
    pos, num = np.array(pos), np.array(num)
    if spec.get("M") is not None:
        M = CENTRING_OF(spec["hall"]) if isinstance(spec["M"], str) else np.array(spec["M"], dtype=float)
        L, pos, num = recell(L, pos, num, M)
    return L, pos, num


def CENTRING_OF(hall):
    return find_primitive(*db(hall))


def recell(L, pos, num, M):
    """New cell with basis L' = M^T L; x' = M^-1 x."""
    M = np.asarray(M, dtype=float)
    Mi = np.linalg.inv(M)
    reach = int(np.ceil(np.abs(M).sum()))
    grid = np.array(
        [
            [a, b, c]
            for a in range(-reach, reach + 1)
            for b in range(-reach, reach + 1)
            for c in range(-reach, reach + 1)
        ]
    )
    npos, nnum = [], []
    ratio = abs(np.linalg.det(M))
    # lattice translations of the old cell that are distinct in the new one
    shifts = []
    for s in grid:
        y = (Mi @ s) % 1
        y[np.abs(y - 1) < 1e-9] = 0
        if all(np.abs((y - z + 0.5) % 1 - 0.5).max() > 1e-6 for z in shifts):
            shifts.append(y)
        if ratio >= 1 and len(shifts) >= round(ratio):
            break
    for x, a in zip(pos, num):
        for s in shifts:
            y = (Mi @ x + s) % 1
            dup = any(
                a == b and np.abs((y - z + 0.5) % 1 - 0.5).max() < 1e-6 for z, b in zip(npos, nnum)
            )
            if not dup:
                npos.append(y)
                nnum.append(a)
    return M.T @ L, np.array(npos), np.array(nnum)


# --------------------------------------------------------------------------- worlds


def gen_world(rng, p_plain=0.25, peer=False):
    """Environment of one host.  Streams, degenerate draws, LAPACK choices, peer presentation."""
    cfg = {"seed": int(rng.integers(1, 1 << 30))}
    if rng.random() < p_plain:
        return cfg
    r = {}
    if rng.random() < 0.7:
        r["mode"] = "reseed"
    if rng.random() < 0.35:
        first = int(rng.integers(0, 3))
        # At most 3 degenerate draws per run in total: the documented 4 attempts (2 draws each)
        r["bad"] = list(range(first, first + int(rng.integers(1, 4))))
        r["kind"] = ["zeros", "const", "rank1", "eye"][rng.integers(4)]
    if r:
        cfg["rng"] = r
    lap = [x for x in ("eigh", "eig", "qr", "noise") if rng.random() < 0.5]
    if lap:
        cfg["lapack"] = lap
    if peer:
        cfg["peer"] = {"perm": bool(rng.random() < 0.5), "shift": bool(rng.random() < 0.5)}
    return cfg


def simplify_world(cfg):
    """Smaller worlds, most aggressive first."""
    if not cfg:
        return
    if set(cfg) - {"seed"}:
        yield {"seed": cfg.get("seed", 0)}
    for key in list(cfg):
        if key == "seed":
            continue
        c = dict(cfg)
        c.pop(key)
        yield c
    if isinstance(cfg.get("lapack"), list) and len(cfg["lapack"]) > 1:
        for x in cfg["lapack"]:
            yield dict(cfg, lapack=[x])
    r = cfg.get("rng") or {}
    if r.get("bad"):
        yield dict(cfg, rng={k: v for k, v in r.items() if k not in ("bad", "kind")})
        for b in r["bad"]:
            yield dict(cfg, rng=dict(r, bad=[x for x in r["bad"] if x != b]))
    if r.get("mode"):
        yield dict(cfg, rng={k: v for k, v in r.items() if k != "mode"})
    p = cfg.get("peer") or {}
    for key, v in p.items():
        if v:
            yield dict(cfg, peer={k: w for k, w in p.items() if k != key})


def simplify_ops(spec):
    for key in ("perm", "lshift", "origin", "M", "wyckoff", "mult"):
        if spec.get(key):
            yield dict(spec, **{key: None}, **({"skew": None} if key == "M" and spec.get("skew") else {}))
    if spec.get("orbits", 1) > 1:
        yield dict(spec, orbits=spec["orbits"] - 1)


def simplify_k(k):
    k = list(k)
    if any(k):
        yield [0.0, 0.0, 0.0]
    for i in range(3):
        if k[i]:
            c = list(k)
            c[i] = 0.0
            yield c
    red = [float(x - np.rint(x)) for x in k]
    if red != k:
        yield red
    rd = [float(np.rint(x * 12) / 12) for x in k]
    if rd != k:
        yield rd
