"""Reference model: what the returned matrices have to satisfy, computed without spgrep.

Everything here uses numpy only.  Each check returns a list of problem strings (empty: fine) so the
same functions serve invariants and history checks.
"""

from __future__ import annotations

from collections import defaultdict

import numpy as np

EYE = np.eye(3, dtype=int)


class Problem(Exception):
    """A violated property: kind is stable under minimisation, detail is for humans."""

    def __init__(self, kind: str, detail: str = ""):
        super().__init__(kind + ": " + detail)
        self.kind = kind
        self.detail = detail


def need(cond, kind, detail=""):
    if not cond:
        raise Problem(kind, detail if isinstance(detail, str) else repr(detail))


# ------------------------------------------------------------------ group side


def op_table(R, T, tr=None):
    """Multiplication table of operations modulo the lattice; -1 where the product is missing."""
    R = np.asarray(R)
    T = np.asarray(T, dtype=float)
    n = len(R)
    q = np.zeros(n, dtype=int) if tr is None else np.asarray(tr).astype(int)
    R = np.rint(R).astype(np.int64)
    byrot = defaultdict(list)
    for i in range(n):
        byrot[R[i].tobytes(), int(q[i])].append(i)
    tab = np.full((n, n), -1)
    RR = np.einsum("iab,jbc->ijac", R, R)
    TT = np.einsum("iab,jb->ija", R, T) + T[:, None]
    for i in range(n):
        for j in range(n):
            cand = byrot.get((RR[i, j].tobytes(), int(q[i] ^ q[j])), ())
            if len(cand) == 1:
                m = cand[0]
                d = TT[i, j] - T[m]
                if np.abs(d - np.rint(d)).max() < 1e-3:
                    tab[i, j] = m
            else:
                best, bd = -1, 1e-3
                for m in cand:
                    d = TT[i, j] - T[m]
                    e = np.abs(d - np.rint(d)).max()
                    if e < bd:
                        best, bd = m, e
                tab[i, j] = best
    return tab, TT


def rot_table(R, tr=None):
    R = np.rint(np.asarray(R)).astype(np.int64)
    n = len(R)
    q = np.zeros(n, dtype=int) if tr is None else np.asarray(tr).astype(int)
    d = {(R[i].tobytes(), int(q[i])): i for i in range(n)}
    RR = np.einsum("iab,jbc->ijac", R, R)
    return np.array([[d[RR[i, j].tobytes(), int(q[i] ^ q[j])] for j in range(n)] for i in range(n)])


def pure_translations(R, T, tr=None):
    q = np.zeros(len(R), dtype=int) if tr is None else np.asarray(tr).astype(int)
    return [i for i in range(len(R)) if (np.rint(R[i]) == EYE).all() and q[i] == 0]


def stabilizer(R, T, k, tr=None, tol=1e-8, primitive=False):
    """Indices of operations whose rotation maps k to an equivalent vector."""
    k = np.asarray(k, dtype=float)
    q = np.zeros(len(R), dtype=int) if tr is None else np.asarray(tr).astype(int)
    pt = [] if primitive else [np.asarray(T[i]) for i in pure_translations(R, T, tr)]
    out = []
    for i in range(len(R)):
        g = (-1 if q[i] else 1) * np.asarray(R[i]).T @ k - k
        if np.abs(g - np.rint(g)).max() > tol:
            continue
        if any(abs(g @ t - np.rint(g @ t)) > 1e-3 for t in pt):
            continue
        out.append(i)
    return out


def conjugacy_classes(tab):
    n = len(tab)
    inv = [int(np.nonzero(tab[i] == identity(tab))[0][0]) for i in range(n)]
    seen, count = set(), 0
    for i in range(n):
        if i in seen:
            continue
        count += 1
        seen.update(int(tab[tab[inv[g], i], g]) for g in range(n))
    return count


def identity(tab):
    n = len(tab)
    for i in range(n):
        if (tab[i] == np.arange(n)).all():
            return i
    raise ValueError("no identity")


def check_operations(R, T, ref, q=None, tol=1e-4):
    """The returned operations are those of the reference, in any order and modulo the lattice."""
    R, T = np.asarray(R), np.asarray(T, dtype=float)
    n = len(ref["rotations"])
    need(R.shape == (len(R), 3, 3) and T.shape == (len(R), 3), "malformed-output", f"operations {R.shape} {T.shape}")
    need(len(R) == n, "wrong-operations", f"{len(R)} operations, the given cell has {n}")
    q = np.zeros(n, dtype=int) if q is None else np.asarray(q).astype(int)
    rq = np.asarray(ref.get("time_reversals", np.zeros(n))).astype(int)
    left = defaultdict(list)
    for i in range(n):
        left[np.asarray(ref["rotations"][i]).astype(np.int64).tobytes(), int(rq[i])].append(i)
    for i in range(n):
        cand = left.get((np.rint(R[i]).astype(np.int64).tobytes(), int(q[i])), [])
        hit = [m for m in cand if np.abs((T[i] - ref["translations"][m] + 0.5) % 1 - 0.5).max() < tol]
        need(bool(hit), "wrong-operations", "a returned operation is not one of those of the given cell")
        cand.remove(hit[0])


# ------------------------------------------------------------------ representation side


def check_shape(reps, n, name="irreps", allow_empty=False):
    need(isinstance(reps, (list, tuple)), "malformed-output", f"{name} is {type(reps).__name__}")
    need(allow_empty or len(reps) > 0, "incomplete", f"{name} is empty")
    for a, x in enumerate(reps):
        x = np.asarray(x)
        need(
            x.ndim == 3 and x.shape[0] == n and x.shape[1] == x.shape[2] and x.shape[1] > 0,
            "malformed-output",
            f"{name}[{a}].shape={x.shape}, {n} operations",
        )
        need(np.isfinite(x).all(), "not-finite", f"{name}[{a}] has non-finite entries")


def law_error(x, tab, factor, tr=None):
    """max |D_i D_j(*) - factor_ij D_k|; factor_ij scalar per pair."""
    x = np.asarray(x)
    n = len(x)
    worst = 0.0
    for i in range(n):
        b = x.conj() if tr is not None and tr[i] else x
        e = np.abs(x[i] @ b - factor[i][:, None, None] * x[tab[i]]).max()
        worst = max(worst, float(e)) if np.isfinite(e) else float("inf")
    return worst


def unitary_error(x):
    x = np.asarray(x)
    e = np.abs(np.einsum("kij,klj->kil", x, x.conj()) - np.eye(x.shape[1])).max()
    return float(e)


def translation_phase(k, TT, T, tab):
    """exp(-2 pi i k.(R_i t_j + t_i - t_k))."""
    d = TT - np.asarray(T)[tab]
    return np.exp(-2j * np.pi * (d @ np.asarray(k, dtype=float)))


def chars(reps):
    return [np.einsum("kii->k", np.asarray(x)).astype(complex) for x in reps]


def check_family(reps, n, total, tol=1e-7, name="irreps"):
    """Unitary, irreducible, pairwise inequivalent, complete; for ordinary (linear) operators.

    total is the required sum of squared dimensions.
    """
    for a, x in enumerate(reps):
        e = unitary_error(x)
        need(e < tol, "not-unitary", f"{name}[{a}] error {e:.2e}")
    c = chars(reps)
    for a in range(len(reps)):
        w = float(np.sum(np.abs(c[a]) ** 2) / n)
        need(abs(w - 1) < 1e-3, "reducible", f"{name}[{a}] has <chi,chi>={w:.4f}")
        for b in range(a):
            v = abs(np.vdot(c[a], c[b])) / n
            need(v < 1e-3, "duplicate", f"{name}[{b}] and {name}[{a}] have <chi,chi'>={v:.4f}")
    got = sum(np.asarray(x).shape[1] ** 2 for x in reps)
    need(got == total, "incomplete", f"sum of squared dimensions {got}, expected {total}")


def check_law(reps, tab, factor, tol=1e-7, tr=None, name="irreps"):
    need((tab >= 0).all(), "not-a-group", "operations of the little group are not closed")
    for a, x in enumerate(reps):
        e = law_error(x, tab, factor, tr)
        need(e < tol, "not-homomorphism", f"{name}[{a}] error {e:.2e}")


def fs_indicator(x, R, T, k, tab, TT, spin=None):
    """Frobenius-Schur indicator of a small representation: 0 unless 2k is a reciprocal vector."""
    k = np.asarray(k, dtype=float)
    two = 2 * k
    if np.abs(two - np.rint(two)).max() > 1e-7:
        return 0
    n = len(x)
    c = chars([x])[0]
    i = np.arange(n)
    ph = np.exp(-2j * np.pi * ((TT[i, i] - np.asarray(T)[tab[i, i]]) @ k))
    return int(np.rint((np.sum(ph * c[tab[i, i]]) / n).real))


def check_coreps(reps, ind, tr, npt, tol=1e-7, name="coreps"):
    """Irreducible, inequivalent, complete co-representations judged on the unitary subgroup."""
    tr = np.asarray(tr).astype(int)
    xs = tr == 0
    m = int(xs.sum())
    for a, x in enumerate(reps):
        e = unitary_error(x)
        need(e < tol, "not-unitary", f"{name}[{a}] error {e:.2e}")
    c = [v[xs] for v in chars(reps)]
    tot = 0
    anti = bool((~xs).any())
    for a, x in enumerate(reps):
        d = np.asarray(x).shape[1]
        w = float(np.sum(np.abs(c[a]) ** 2) / m)
        if not anti:
            allowed = {1: d * d}
        else:
            allowed = {1: d * d, 4: d * d // 4, 2: d * d // 2}
        r = int(np.rint(w))
        need(abs(w - r) < 1e-3 and r in allowed, "reducible", f"{name}[{a}]: <chi,chi>={w:.4f} on unitary part")
        if ind is not None and anti:
            need(len(ind) == len(reps), "malformed-output", f"{len(ind)} indicators for {len(reps)} coreps")
            want = {1: 1, 4: -1, 2: 0}[r]
            need(int(ind[a]) == want, "wrong-indicator", f"{name}[{a}] indicator {ind[a]}, <chi,chi>={r}")
        tot += allowed[r]
        for b in range(a):
            v = abs(np.vdot(c[a], c[b])) / m
            need(v < 1e-3, "duplicate", f"{name}[{b}] and {name}[{a}]: <chi,chi'>={v:.4f} on unitary part")
    need(tot * npt == m, "incomplete", f"unitary part: {tot}*{npt} of {m}")
    if ind is not None and not anti:
        need(len(ind) == 0, "malformed-output", "indicators reported without time reversal")
    # Schur: a Hermitian matrix averaged over the (anti-)unitary operators of an irreducible
    # co-representation is a multiple of identity.
    g = np.random.Generator(np.random.PCG64(12345))
    for a, x in enumerate(reps):
        x = np.asarray(x)
        d = x.shape[1]
        h = g.standard_normal((d, d)) + 1j * g.standard_normal((d, d))
        h = h + h.conj().T
        av = np.einsum("kij,jl,kml->im", x[xs], h, x[xs].conj())
        if anti:
            av = av + np.einsum("kij,jl,kml->im", x[~xs], h.conj(), x[~xs].conj())
        av = av / len(x)
        e = np.abs(av - np.trace(av) / d * np.eye(d)).max()
        need(e < 1e-3, "reducible", f"{name}[{a}]: a Hermitian matrix commutes with it (error {e:.2e})")


# ------------------------------------------------------------------ spin side

SIGMA = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])


def so3_of(U):
    """SO(3) matrix of U in SU(2): U sigma_j U^dagger = sum_i S_ij sigma_i."""
    return np.real(0.5 * np.einsum("iab,bc,jcd,ad->ij", SIGMA, U, SIGMA, U.conj()))


def check_spin(lattice, R, U, z, tab_rot, tr=None, tol=1e-7, spin_factor_tol=1e-9):
    """U in SU(2) covers the proper part of each rotation; z closes U under multiplication."""
    n = len(R)
    U = np.asarray(U)
    z = np.asarray(z)
    need(U.shape == (n, 2, 2), "malformed-output", f"unitary_rotations {U.shape}, {n} operations")
    need(z.shape == (n, n), "malformed-output", f"factor system {z.shape}, {n} operations")
    need(np.isfinite(U).all() and np.isfinite(z).all(), "not-finite", "spin part")
    A = np.asarray(lattice, dtype=float).T
    Ai = np.linalg.inv(A)
    q = np.zeros(n, dtype=int) if tr is None else np.asarray(tr).astype(int)
    th = np.array([[0, -1], [1, 0]], dtype=complex)
    for i in range(n):
        u = U[i] @ np.linalg.inv(th) if q[i] else U[i]
        need(np.abs(u @ u.conj().T - np.eye(2)).max() < tol, "spin-not-unitary", f"operation {i}")
        need(abs(np.linalg.det(u) - 1) < tol, "spin-not-special", f"operation {i}")
        need(np.trace(u).real > -max(tol, 1e-6), "spin-wrong-branch", f"operation {i}: rotation angle above pi")
        if (np.abs(np.rint(R[i])) == EYE).all() and abs(np.trace(R[i])) == 3:
            need(np.abs(u - np.eye(2)).max() < tol, "spin-wrong-branch", f"operation {i}: identity or inversion is not 1")
        c = A @ np.asarray(R[i], dtype=float) @ Ai
        c = c * np.sign(np.linalg.det(c))
        e = np.abs(so3_of(u) - c).max()
        need(e < max(tol, 1e-6), "spin-wrong-rotation", f"operation {i}: error {e:.2e}")
    where = {np.rint(R[i]).astype(int).tobytes(): i for i in range(n) if not q[i]}
    for i in range(n):
        j = where.get((-np.rint(R[i]).astype(int)).tobytes())
        if not q[i] and j is not None:
            need(np.abs(U[i] - U[j]).max() < tol, "spin-wrong-gauge", f"operations {i} and {j} differ by inversion only")
    need(np.abs(np.abs(z) - 1).max() < spin_factor_tol and np.abs(np.imag(z)).max() < spin_factor_tol,
         "spin-factor-not-sign", "factor system entries are not +-1")
    for i in range(n):
        b = U.conj() if q[i] else U
        e = np.abs(U[i] @ b - z[i][:, None, None] * U[tab_rot[i]]).max()
        need(e < max(tol, 1e-6), "spin-factor-wrong", f"operation {i}: error {e:.2e}")


# ------------------------------------------------------------------ real representations


def real_law_error(x, k, tab, TT, T, two_block):
    x = np.asarray(x)
    n, d = x.shape[:2]
    a = 2 * np.pi * ((TT - np.asarray(T)[tab]) @ np.asarray(k, dtype=float))
    worst = 0.0
    for i in range(n):
        lhs = x[i] @ x
        rhs = x[tab[i]]
        if two_block:
            h = d // 2
            c, s = np.cos(a[i])[:, None, None], np.sin(a[i])[:, None, None]
            r2 = np.concatenate(
                [c * rhs[:, :h] - s * rhs[:, h:], s * rhs[:, :h] + c * rhs[:, h:]], axis=1
            )
        else:
            r2 = np.cos(a[i])[:, None, None] * rhs
        e = np.abs(lhs - r2).max()
        worst = max(worst, float(e)) if np.isfinite(e) else float("inf")
    return worst


def subspace_ok(rows, rank, tol=1e-7):
    if len(rows) == 0:
        return rank == 0
    return np.linalg.matrix_rank(np.asarray(rows), tol=tol) == rank
