"""C20: subspace distances, roots, mode products and simple values, on any host."""

from __future__ import annotations

import numpy as np

from . import common as C
from .common import W, need, seams

RUNS = {"quick": 36000, "thorough": 500000}
RULE = (
    "one run = one numerical helper, one argument with a known answer (subspaces assembled from chosen principal angles and "
    "mixed inside, matrices from chosen values), as another host delivers it (round-off, signed zeros, strides, byte "
    "order of axes, read-only memory), one host (LAPACK's choices and last digits, floating-point traps); non-trivial when the host "
    "or the delivery differs from the plain one; distinct by helper, sizes, option and execution digest"
)
COMPONENTS = {
    "real": ["spgrep.utils", "spgrep.irreps.purify_irrep_value", "spgrep.irreps.purify_real_irrep_value", "LAPACK"],
    "stub": C.SHIMS + ["delivery of arrays between hosts (simulated round-off and memory layout)"],
}
ASSUMPTIONS = ["linearly independent basis vectors", "values near the edge of a tolerance are not judged"]

KINDS = ["angles", "angles", "root", "modes", "snap", "snapreal", "integers", "tuples"]


def gen(rng, i):
    kind = KINDS[rng.integers(len(KINDS))]
    n = int(rng.integers(1, 9))
    p = {
        "kind": kind,
        "seed": int(rng.integers(1, 1 << 30)),
        "complex": bool(rng.random() < 0.6),
        "n": n,
        "k": int(rng.integers(1, n + 1)),
        "l": int(rng.integers(1, n + 1)),
        "option": int(rng.integers(6)),
        "noise": float(10 ** rng.uniform(-17, -4)) if rng.random() < 0.6 else 0.0,
        "layout": int(rng.integers(5)),
        "traps": bool(rng.random() < 0.2),
        "world": {"seed": int(rng.integers(1, 1 << 30))},
    }
    lap = [x for x in ("qr", "noise") if rng.random() < 0.5]
    if lap:
        p["world"]["lapack"] = lap
    return p


def deliver(x, how):
    """The same numbers, arranged in memory as another host may have them."""
    if how == 1:
        return np.asfortranarray(x)
    if how == 2 and x.ndim:
        y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if how == 3 and x.ndim:
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == 4:
        x = x.copy()
        x.flags.writeable = False
    return x


def frames(g, p):
    """Two bases and the principal angles between what they span."""
    n, k, l = p["n"], p["k"], p["l"]
    real = not p["complex"]
    q = C.haar(g, n, real).T
    m = min(k, l)
    free = n - max(k, l)
    th = np.zeros(m)
    for j in range(min(m, free)):
        th[j] = [0.0, np.pi / 2, np.pi / 3, 1e-9, 1e-3, g.uniform(0, np.pi / 2), g.uniform(0, np.pi / 2)][g.integers(7)]
    a = q[:k]
    b = [np.cos(th[j]) * q[j] + (np.sin(th[j]) * q[max(k, l) + j] if j < free else 0) for j in range(m)]
    if l > k:  # the larger one has directions of its own
        b += [q[j] for j in range(k, l)]
    b = np.array(b)

    def mix(d):
        u, v = C.haar(g, d, real), C.haar(g, d, real)
        return u @ np.diag(10 ** g.uniform(-1, 1, d)) @ v

    skip = p["option"] % 3 == 2
    if skip:
        a, b = C.haar(g, k, real) @ a, C.haar(g, l, real) @ b
    else:
        a, b = mix(k) @ a, mix(l) @ b
    return a, b, th, skip


SNAP = np.concatenate([[0], np.exp(2j * np.pi * np.array([0, 1, 2, 3, 4, 5]) / 6), [1j, -1j]])
SNAPREAL = np.array([0, 1, -1, 0.5, -0.5, np.sqrt(3) / 2, -np.sqrt(3) / 2])


def run(plan, ctx):
    from spgrep import irreps as si
    from spgrep import utils as su

    kind, n = plan["kind"], plan["n"]
    g = seams.sub_rng("helpers", plan["seed"])
    w = ctx.world(plan["world"])
    lay = lambda x: deliver(np.asarray(x), plan["layout"])  # noqa: E731
    if plan["layout"]:
        ctx.fault("delivery.layout")
    if plan["noise"]:
        ctx.fault("delivery.roundoff")
    if plan["traps"]:
        ctx.fault("host.fp_traps")
    traps = np.errstate(divide="raise", invalid="raise", over="raise") if plan["traps"] else np.errstate()
    with w, traps:
        key = (kind, n)
        if kind == "angles":
            a, b, th, skip = frames(g, plan)
            ord = ["min", "projection"][plan["option"] % 2]
            amp = min(plan["noise"], 1e-12)
            a, b = a * (1 + amp * g.uniform(-1, 1, a.shape)), b * (1 + amp * g.uniform(-1, 1, b.shape))
            got = ctx.call(su.grassmann_distance, lay(a), lay(b), ord=ord, skip_orthonormalization=skip)
            want = np.sin(th).max() if ord == "min" else np.sqrt(np.mean(th**2))
            need(np.ndim(got) == 0 and np.isfinite(got) and np.isreal(got), "malformed-output", f"distance {got!r}")
            need(abs(got - want) < 2e-5 if amp else abs(got - want) < 2e-6, "wrong-distance",
                 f"{ord} distance {got:.9f} of subspaces of dimension {len(a)} and {len(b)} in {n}, expected {want:.9f}")
            key += (len(a), len(b), ord, skip)
        elif kind == "root":
            p = int([1, 2, 3, 4, 5, 6, 8, 12][g.integers(8)])
            ang = 2 * np.pi * g.integers(0, 24) / 24 if g.random() < 0.7 else g.uniform(-np.pi, np.pi)
            z = (1.0 if g.random() < 0.6 else 10 ** g.uniform(-6, 6)) * np.exp(1j * ang)
            if g.random() < 0.6:
                z = complex(*[0.0 if abs(x) < 1e-12 else x for x in (z.real, z.imag)])
            if plan["option"] % 2:
                z = complex(z.real, -0.0 if z.imag == 0 else z.imag)
            z = z * (1 + min(plan["noise"], 1e-9) * complex(*g.uniform(-1, 1, 2)))
            r = ctx.call(su.nroot, np.complex128(z) if plan["layout"] % 2 else complex(z), p)
            need(np.ndim(r) == 0 and np.isfinite(r), "malformed-output", f"root {r!r}")
            need(abs(r**p - z) < 1e-9 * abs(z), "wrong-root", f"{p}-th root of {z}: {r}")
            need(abs(np.angle(r)) <= np.pi / p + 1e-9, "not-the-least-angle", f"{p}-th root of {z}: {r}")
            key += (p,)
        elif kind == "modes":
            rank = int(g.integers(1, 5))
            m = int(g.integers(1, 5))
            x = g.standard_normal((m,) * rank)
            mats = [g.standard_normal((m, int(g.integers(1, 5)))) for _ in range(rank)]
            if plan["complex"]:
                x = x + 1j * g.standard_normal(x.shape)
                if plan["option"] % 2:
                    mats = [y + 1j * g.standard_normal(y.shape) for y in mats]
            got = ctx.call(su.mode_dot, lay(x), [lay(y) for y in mats])
            want = x
            for y in mats:
                want = np.tensordot(want, y, axes=(0, 0))
            need(np.shape(got) == want.shape, "malformed-output", f"shape {np.shape(got)}, expected {want.shape}")
            need(np.abs(got - want).max() <= 1e-12 * (1 + np.abs(want).max()), "wrong-product", f"mode product of rank {rank}")
            key += (rank, m)
        elif kind in ("snap", "snapreal"):
            table = SNAP if kind == "snap" else SNAPREAL
            atol = [1e-8, 1e-8, 1e-6, 1e-4][plan["option"] % 4]
            shape = (int(g.integers(1, 9)), n, n)
            base = table[g.integers(len(table), size=shape)]
            amp = 10 ** g.uniform(-17, -2, shape)
            if kind == "snap":
                x = base + amp * np.exp(2j * np.pi * g.random(shape))
                f = si.purify_irrep_value
            else:
                x = base + amp * g.choice([-1.0, 1.0], shape)
                f = si.purify_real_irrep_value
            other = g.random(shape) < 0.2
            x = np.where(other, g.uniform(-1, 1, shape) * (1 if kind == "snapreal" else np.exp(2j * np.pi * g.random(shape))), x)
            kw = {"atol": atol} if plan["option"] < 4 or atol != 1e-8 else {}
            y = deliver(x.copy(), plan["layout"] % 4)
            got = np.asarray(ctx.call(f, y, **kw))
            need(got.shape == shape and got.dtype == x.dtype, "malformed-output", f"{got.shape} {got.dtype}")
            d = np.abs(x[..., None] - table)
            near, dist = table[np.argmin(d, axis=-1)], d.min(axis=-1)
            inside, outside = dist < 0.9 * atol, dist > 1.1 * atol
            need(np.abs(got - near)[inside].max(initial=0) < 1e-15, "noise-kept", f"values within {atol} of a simple one are not replaced")
            need(np.array_equal(got[outside], x[outside]), "value-changed", f"values farther than {atol} from simple ones are changed")
            key += (atol,)
        elif kind == "integers":
            shape = [(3, 3), (n,), (n, 3, 3), (2, n)][plan["option"] % 4]
            rtol, atol = [(1e-5, 1e-8), (1e-5, 1e-8), (1e-5, 1e-6), (1e-7, 1e-8)][g.integers(4)]
            big = [2, 10, 1000][g.integers(3)]
            x = g.integers(-big, big + 1, size=shape).astype(float)
            x = np.where((x == 0) & (g.random(shape) < 0.3), -0.0, x)
            lim = atol + rtol * np.abs(x)
            x = x + 0.5 * min(1.0, plan["noise"] / 1e-5) * lim * g.uniform(-1, 1, shape)
            good = bool(g.random() < 0.5)
            if not good:
                at = tuple(int(g.integers(s)) for s in shape)
                x[at] += g.choice([-1, 1]) * (0.5 if g.random() < 0.3 else min(0.5, 10 ** g.uniform(0.7, 5) * (atol + rtol * (abs(x[at]) + 1))))
            kw = {} if (rtol, atol) == (1e-5, 1e-8) and plan["complex"] else {"rtol": rtol, "atol": atol}
            got = ctx.call(su.is_integer_array, lay(x), **kw)
            need(bool(got) == good, "wrong-verdict", f"is_integer_array says {got}, array is {'' if good else 'not '}integer")
            key += (good, shape)
        else:
            x = g.integers(-3, 4, size=(int(g.integers(1, 5)), n))
            y = x + min(0.4, plan["noise"] * 1e3) * g.uniform(-1, 1, x.shape)
            got = ctx.call(su.ndarray2d_to_integer_tuple, lay(y if plan["option"] % 2 else x))
            need(got == tuple(map(tuple, x.tolist())), "wrong-tuple", f"{got} for {x.tolist()}")
            need(hash(got) is not None and all(type(v) is int for row in got for v in row), "malformed-output", "entries are not int")
    ctx.note(seams.digest(kind, plan["seed"]))
    ctx.cover(*key, nontrivial=bool(plan["layout"] or plan["noise"] or plan["traps"] or plan["world"].get("lapack")))


def shrink(plan):
    for w in W.simplify_world(plan["world"]):
        yield dict(plan, world=w)
    for key, v in (("layout", 0), ("noise", 0.0), ("traps", False), ("complex", False)):
        if plan[key]:
            yield dict(plan, **{key: v})
    if plan["n"] > 1:
        n = plan["n"] - 1
        yield dict(plan, n=n, k=min(plan["k"], n), l=min(plan["l"], n))
    for key in ("k", "l"):
        if plan[key] > 1:
            yield dict(plan, **{key: plan[key] - 1})
