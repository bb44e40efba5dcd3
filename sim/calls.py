"""One call into spgrep described by a small JSON spec, with the judge of its result.

The session properties (retries, reproducibility, concurrency, interruption, noise, replicas) are
histories of such calls.
"""

from __future__ import annotations

import inspect
import numpy as np

from . import oracle as O
from . import seams
from . import workload as W
from .oracle import Problem, need
from .props import common as C

LINEAR = ["prim", "small", "pg", "pgind", "conv"]
REAL = ["primreal", "pgreal", "phys"]
SPIN = ["sprim", "spg", "sconv"]
COREP = ["cprim", "cpg", "cconv"]
KERNEL = ["project", "tensors", "decompose", "intertwiner", "regular", "factor"]
ALL = LINEAR + REAL + SPIN + COREP + KERNEL
AUX_MAG = ["mlittle", "mcayley", "corepfs", "split", "munique"]  # bookkeeping of magnetic operations
AUX = [
    "little", "cayley", "reg", "projreg", "character", "direct", "unique", "transform", "primmat", "hall", "spinfs", "chain",
    "intrinsic", "isrep", "checkrep", "cocycle", "isgroup", "fsind", "unitary", "grassmann", "smallsp",
] + AUX_MAG
AUX_NOISY = ["little", "mlittle", "unique", "munique", "transform", "spinfs", "corepfs", "smallsp", "split", "isrep", "fsind", "unitary",
             "character", "direct", "checkrep", "cocycle", "projreg"]
CELLS = ("conv", "sconv", "cconv")


def little_hall(rng, max_order):
    for _ in range(200):
        h = W.pick_hall(rng)
        if len(W.prim(h)[0]) <= max_order:
            return h
    return 2


def gen(rng, names=None, max_order=192):
    name = (names or ALL)[rng.integers(len(names or ALL))]
    s = {"fn": name, "method": C.method(rng), "opts": {}}
    if name == "cconv":
        for _ in range(300):
            s["rec"] = int(rng.integers(len(W.mag_records())))
            rec = W.mag_records()[s["rec"]]
            if len(rec["rotations"]) <= 2 * max_order:
                break
        s["k"] = W.gen_k(rng, np.array(rec["rotations"]), np.array(rec["time_reversals"]))
        return s
    if name in ("conv", "sconv"):
        for _ in range(300):
            c = W.gen_cell_spec(rng, max_ops=max(4 * max_order, 8))
            if len(W.prim(c["hall"])[0]) <= max_order:
                break
        s["cell"] = c
        s["k"] = W.gen_k(rng, W.db(c["hall"])[0] if c["M"] is None else None)
        return s
    if name in ("cprim", "cpg") or name in AUX_MAG:
        for _ in range(300):
            ops = W.gen_mops_spec(rng)
            if len(W.mprim(ops["uni"])[0]) <= 2 * max_order:
                break
        s["ops"] = ops
        R, T, q = W.build_ops(ops)
        s["k"] = W.gen_k(rng, R, q)
        s["lat"] = int(rng.integers(1, 1 << 30))
        return s
    ops = W.gen_ops_spec(rng, little_hall(rng, max_order))
    s["ops"] = ops
    R, _ = W.build_ops(ops)
    s["k"] = W.trim_k(rng) if name in REAL and rng.random() < 0.5 else W.gen_k(rng, R)
    s["lat"] = int(rng.integers(1, 1 << 30))
    s["mult"] = int(rng.integers(1, 1 << 30))
    return s


class Call:
    """args/kwargs are private to this object; snapshot() tells whether a call altered them."""

    def __init__(self, spec):
        self.spec = spec
        self.name = spec["fn"]
        self.mag = None
        self.args, self.kwargs = [], {}
        self.coin = seams.digest(sorted(spec.items(), key=str))
        getattr(self, "_build_" + ("cell" if self.name in CELLS else "ops"))()
        if spec.get("opts"):
            self.kwargs.update({o: v for o, v in spec["opts"].items() if self.takes(o)})

    # ------------------------------------------------------------------ build
    def _build_cell(self):
        s = self.spec
        self.k = np.array(s["k"], dtype=float)
        if self.name == "cconv":
            rec = W.mag_records()[s["rec"]]
            self.mag = rec
            L, pos, num, mag = (np.array(rec[x]) for x in ("lattice", "positions", "numbers", "magmoms"))
            self.L = L.copy()
            self.args = [L, pos, num]
            self.kwargs = {"magmoms": mag, "kpoint": self.k.copy(), "method": s["method"]}
        else:
            L, pos, num = W.build_cell(s["cell"])
            self.L, self.pos, self.num = L.copy(), pos.copy(), num.copy()
            self.args = [L, pos, num]
            self.kwargs = {"kpoint": self.k.copy(), "method": s["method"]}

    def _build_ops(self):
        s, nm = self.spec, self.name
        b = W.build_ops(s["ops"])
        R, T = b[0], b[1]
        q = b[2] if len(b) == 3 else None
        k = np.array(s["k"], dtype=float)
        self.R, self.T, self.q, self.k = R, T, q, k
        self.L = W.lattice_for(R, s["lat"])
        if s.get("turn"):
            Q = C.haar(seams.sub_rng("turn", s["turn"]), 3, real=True) if s["turn"] % 2 else np.eye(3)[[1, 2, 0]]
            self.L = self.L @ (Q * np.sign(np.linalg.det(Q)))
        self.reps = None
        kw = {"method": s["method"]}
        if nm in ("pg", "pgind", "pgreal", "spg"):
            self.T, self.k = np.zeros_like(T), np.zeros(3)
            self.exp = list(range(len(R)))
        elif nm in ("cpg", "corepfs", "mcayley"):
            idx = C.distinct_rotations(R, q)
            self.R, self.q = R[idx], q[idx]
            self.T, self.k = np.zeros((len(idx), 3)), np.zeros(3)
            self.exp = list(range(len(idx)))
        else:
            self.exp = O.stabilizer(R, T, k, q, primitive=True, tol=5e-8)
        R, T, q, k, e = self.R, self.T, self.q, self.k, self.exp
        if nm in ("prim", "primreal"):
            self.args, self.kwargs = [R.copy(), T.copy(), k.copy()], dict(kw, real=nm == "primreal")
        elif nm == "small":
            self.args, self.kwargs = [R[e].copy(), T[e].copy(), k.copy()], kw
        elif nm in ("pg", "pgind"):
            self.args, self.kwargs = [R.copy()], kw
        elif nm == "pgreal":
            self.args, self.kwargs = [R.copy()], dict(kw, real=True)
        elif nm == "sprim":
            self.args, self.kwargs = [self.L.copy(), R.copy(), T.copy()], dict(kw, kpoint=k.copy())
        elif nm == "spg":
            self.args, self.kwargs = [self.L.copy(), R.copy()], kw
        elif nm == "cprim":
            self.args, self.kwargs = [self.L.copy(), R.copy(), T.copy(), q.copy(), k.copy()], kw
        elif nm == "cpg":
            self.args, self.kwargs = [self.L.copy(), R.copy(), q.copy()], kw
        elif nm in AUX:
            self.kwargs = {}
            self._build_aux(R, T, q, k, e)
        elif nm == "regular":
            self.args, self.kwargs = [regular_of(O.rot_table(R[e]), self._mu())], {}
        elif nm == "factor":
            self.args, self.kwargs = [R[e].copy(), T[e].copy(), k.copy()], {}
        else:
            self._build_kernel()

    def _build_aux(self, R, T, q, k, e):
        nm, s = self.name, self.spec
        r, t = R[e].copy(), T[e].copy()
        if nm in ("little", "mlittle"):
            self.args = [R.copy(), T.copy(), k.copy()]
            if q is not None:
                self.kwargs = {"time_reversals": q.copy()}
        elif nm in ("cayley", "mcayley", "reg", "chain", "isgroup"):
            self.args = [r] if q is None else [R.copy(), q.copy()]
        elif nm == "corepfs":
            self.args = [self.L.copy(), R.copy(), q.copy()]
        elif nm == "split":
            self.args = [R.copy(), T.copy(), q.copy()]
        elif nm in ("unique", "munique"):
            g = seams.sub_rng("unique", s.get("mult", s["lat"]))
            j = g.permutation(2 * len(R)) % len(R)
            sh = g.integers(-2, 3, (len(j), 3))
            if g.random() < 0.3:  # nothing to remove
                j, sh = np.arange(len(R)), -np.floor(T)
            self.args = [R[j].copy(), T[j] + sh]
            if q is not None:
                self.args.append(q[j].copy())
        elif nm in ("transform", "primmat", "hall"):
            h = s["ops"]["hall"]
            if nm == "transform":
                R, T = W.db(h)
                self.args = [W.find_primitive(R, T) @ W.unimod(seams.sub_rng("P", s["lat"])), R.copy(), T.copy(), k.copy()]
            else:
                self.args = [h]
        elif nm == "spinfs":
            self.args = [self.L.copy(), r]
        elif nm == "smallsp":
            self.args, self.kwargs = [self.L.copy(), r, t], {"kpoint": k.copy(), "method": s["method"]}
        elif nm == "projreg":
            self.args = [r, self._mu()]
        elif nm == "cocycle":
            keep = r[:12] if len(r) <= 12 else R[self.exp][:1]
            self.args = [keep.copy(), self._mu()[: len(keep), : len(keep)].copy()]
        else:
            g = seams.sub_rng("aux", s["mult"])
            tab = O.rot_table(R)
            irr = irreps_of(tab)
            x, y = irr[int(g.integers(len(irr)))], irr[int(g.integers(len(irr)))]
            if nm == "intrinsic":
                rank = int(g.integers(1, 4))
                self.args = [[g.standard_normal((3,) * rank) * float(10.0 ** g.integers(-1, 2)) for _ in range(int(g.integers(1, 4)))]]
            elif nm in ("character", "fsind", "unitary"):
                self.args = [x.copy()]
            elif nm == "direct":
                self.args = [x.copy(), y.copy()]
            elif nm == "isrep":
                self.args = [x.copy(), tab.copy()]
            elif nm == "checkrep":
                ks = np.zeros(3)
                self.args = [R.copy(), np.zeros((len(R), 3)), ks, x.copy()]
            else:
                d = int(g.integers(2, 6))
                self.args = [g.standard_normal((int(g.integers(1, d + 1)), d)), g.standard_normal((int(g.integers(1, d + 1)), d)) + 1j]

    def _mu(self):
        r, t = self.R[self.exp], self.T[self.exp]
        res = np.einsum("iab,a->ib", r, self.k) - self.k
        return np.exp(-2j * np.pi * np.rint(res) @ t.T)

    def _build_kernel(self):
        """Operators assembled without spgrep: sums of the regular representation's pieces."""
        s = self.spec
        r = self.R
        self.k, self.T = np.zeros(3), np.zeros_like(self.T)
        self.exp = list(range(len(r)))
        self.tab = O.rot_table(r)
        irr = irreps_of(self.tab)
        self.irr = irr
        g = seams.sub_rng("kernel", s["mult"])
        if self.name == "tensors":
            self.rep = C.cart_rep(r, self.L)
            self.rank = int(g.integers(1, 3))
            self.args = [self.rep.copy(), r.copy(), self.rank]
            self.kwargs = {"real": bool(g.random() < 0.5)}
            return
        if self.name in ("intertwiner", "phys"):
            j = int(g.integers(len(irr)))
            x = irr[j]
            V = C.haar(g, x.shape[1])
            y = np.einsum("ia,kab,jb->kij", V, x, V.conj())
            self.x, self.y = x, y
            if self.name == "intertwiner":
                self.args = [x.copy(), y.copy()]
            else:
                n = len(r)
                self.fs = int(np.rint(np.einsum("kij,kji->", x, x).real / n))
                self.args = [y.copy(), self.fs]
            return
        mult = g.integers(0, 3, len(irr))
        dims = np.array([x.shape[1] for x in irr])
        while (mult * dims).sum() > 14:
            mult[int(np.argmax(mult * dims))] -= 1
        if not mult.any():
            mult[int(g.integers(len(irr)))] = 1
        self.mult = mult
        blocks = [irr[j] for j, m in enumerate(mult) for _ in range(m)]
        self.rep = C.block_sum(blocks, C.haar(g, int((mult * dims).sum())))
        if self.name == "project":
            self.j = int(g.integers(len(irr)))
            self.args = [self.rep.copy(), irr[self.j].copy()]
        else:
            self.args = [self.rep.copy()]

    # ------------------------------------------------------------------ call
    @property
    def fn(self):
        import spgrep
        from spgrep import corep, group, irreps, pointgroup, representation, spinor, tensor, transform, utils

        return {
            "little": group.get_little_group,
            "mlittle": group.get_little_group,
            "cayley": group.get_cayley_table,
            "mcayley": group.get_cayley_table,
            "reg": representation.get_regular_representation,
            "projreg": representation.get_projective_regular_representation,
            "character": representation.get_character,
            "direct": representation.get_direct_product,
            "unique": transform.unique_primitive_symmetry,
            "munique": transform.unique_primitive_symmetry,
            "transform": transform.transform_symmetry_and_kpoint,
            "primmat": transform.get_primitive_transformation_matrix,
            "hall": utils.get_symmetry_from_hall_number,
            "spinfs": spinor.get_spinor_factor_system,
            "smallsp": spinor.enumerate_spinor_small_representations,
            "corepfs": corep.get_corep_spinor_factor_system,
            "split": group.decompose_by_maximal_space_subgroup,
            "chain": pointgroup.get_pointgroup_chain_generators,
            "intrinsic": tensor.apply_intrinsic_symmetry,
            "isrep": representation.is_representation,
            "checkrep": representation.check_spacegroup_representation,
            "cocycle": group.check_cocycle_condition,
            "isgroup": group.is_matrix_group,
            "fsind": representation.frobenius_schur_indicator,
            "unitary": representation.is_unitary,
            "grassmann": utils.grassmann_distance,
            "prim": spgrep.get_spacegroup_irreps_from_primitive_symmetry,
            "primreal": spgrep.get_spacegroup_irreps_from_primitive_symmetry,
            "small": irreps.enumerate_small_representations,
            "pg": spgrep.get_crystallographic_pointgroup_irreps_from_symmetry,
            "pgreal": spgrep.get_crystallographic_pointgroup_irreps_from_symmetry,
            "pgind": irreps.enumerate_unitary_irreps,
            "conv": spgrep.get_spacegroup_irreps,
            "phys": irreps.get_physically_irrep,
            "sprim": spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry,
            "spg": spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry,
            "sconv": spgrep.get_spacegroup_spinor_irreps,
            "cprim": spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry,
            "cpg": spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry,
            "cconv": spgrep.get_spacegroup_spinor_irreps,
            "project": representation.project_to_irrep,
            "tensors": tensor.get_symmetry_adapted_tensors,
            "decompose": irreps.decompose_representation,
            "intertwiner": representation.get_intertwiner,
            "regular": irreps.enumerate_unitary_irreps_from_regular_representation,
            "factor": group.get_factor_system_from_little_group,
        }[self.name]

    def takes(self, name):
        return name in inspect.signature(self.fn).parameters

    def __call__(self):
        return self.fn(*self.args, **seams.leave_out(self.fn, self.kwargs, self.coin))

    def snapshot(self):
        return [freeze(x) for x in self.args] + [(k, freeze(v)) for k, v in sorted(self.kwargs.items())]

    def arrays(self):
        return out_arrays(list(self.args) + list(self.kwargs.values()))

    # ------------------------------------------------------------------ judge
    def check(self, out, tol=1e-6):
        if self.name in AUX and not hasattr(self, "_check_" + self.name):
            # functions without free choices: the answer of an undisturbed call (self.ref) is the only one
            d = difference(out, self.ref, max(tol * 0.1, 1e-7), mod1=self.name in ("unique", "munique"))
            need(d is None, "wrong-value", d or "")
            return
        getattr(self, "_check_" + self.name)(out, tol)

    def _unpack(self, out, m):
        need(isinstance(out, tuple) and len(out) == m, "malformed-output", f"{type(out).__name__} of length {len(out) if hasattr(out, '__len__') else '?'}, expected {m}")
        return out

    def _check_prim(self, out, tol):
        irreps, mp = self._unpack(out, 2)
        C.check_linear(irreps, mp, self.R, self.T, self.k, self.exp, 1, tol)

    def _check_small(self, out, tol):
        irreps, ind = self._unpack(out, 2)
        r, t = self.R[self.exp], self.T[self.exp]
        n = len(r)
        C.check_linear(irreps, np.arange(n), r, t, self.k, list(range(n)), 1, tol)
        tab, TT = O.op_table(r, t)
        for j, x in enumerate(irreps):
            need(int(ind[j]) == O.fs_indicator(x, r, t, self.k, tab, TT), "wrong-indicator", f"irreps[{j}]")

    def _family(self, irreps, tol):
        n = len(self.R)
        O.check_shape(irreps, n)
        O.check_law(irreps, O.rot_table(self.R), np.ones((n, n)), tol)
        O.check_family(irreps, n, n, tol)

    def _check_pg(self, out, tol):
        self._family(out, tol)

    def _check_pgind(self, out, tol):
        irreps, ind = self._unpack(out, 2)
        self._family(irreps, tol)
        n = len(self.R)
        for j, x in enumerate(irreps):
            need(int(ind[j]) == int(np.rint(np.einsum("kij,kji->", x, x).real / n)), "wrong-indicator", f"irreps[{j}]")

    def _check_conv(self, out, tol):
        irreps, R, T, mp = self._unpack(out, 4)
        O.check_operations(R, T, C.cell_operations(self.L, self.pos, self.num), tol=max(1e-4, 0.3 * self.kwargs.get("symprec", 0)))
        exp = O.stabilizer(R, T, self.k, tol=1e-7)
        C.check_linear(irreps, mp, R, T, self.k, exp, len(O.pure_translations(R, T)), max(tol, 2e-6))

    def _real(self, reps, R, T, k, tol):
        from .props.c03 import check_real

        n = len(R)
        if np.any(T):
            tab, TT = O.op_table(R, T)
        else:
            tab, TT = O.rot_table(R), np.zeros((n, n, 3))
        check_real(reps, None, n, k, tab, TT, T, tol)

    def _check_primreal(self, out, tol):
        reps, mp = self._unpack(out, 2)
        mp = C.check_mapping(mp, self.exp)
        self._real(reps, self.R[mp], self.T[mp], self.k, tol)

    def _check_pgreal(self, out, tol):
        self._real(out, self.R, self.T, self.k, tol)

    def _check_phys(self, out, tol):
        n = len(self.R)
        O.check_shape([out], n)
        need(not np.iscomplexobj(out), "not-real", f"dtype {np.asarray(out).dtype}")
        need(O.unitary_error(out) < tol, "not-orthogonal", f"{O.unitary_error(out):.2e}")
        e = O.law_error(out, self.tab, np.ones((n, n)))
        need(e < tol, "not-homomorphism", f"error {e:.2e}")
        c = np.einsum("kii->k", self.x)
        e = np.abs(np.einsum("kii->k", out) - (c if self.fs == 1 else 2 * c.real)).max()
        need(e < tol, "wrong-character", f"error {e:.2e}")

    def _check_sprim(self, out, tol):
        from .props.c05 import check

        irreps, z, U, mp = self._unpack(out, 4)
        check(irreps, z, U, mp, self.L, self.R, self.T, self.k, self.exp, 1, tol)

    def _check_spg(self, out, tol):
        from .props.c05 import check

        irreps, z, U = self._unpack(out, 3)
        check(irreps, z, U, np.array(self.exp), self.L, self.R, self.T, self.k, self.exp, 1, tol)

    def _check_sconv(self, out, tol):
        from .props.c05 import check

        irreps, z, U, R, T, mp = self._unpack(out, 6)
        R, T = np.asarray(R), np.asarray(T)
        O.check_operations(R, T, C.cell_operations(self.L, self.pos, self.num), tol=max(1e-4, 0.3 * self.kwargs.get("symprec", 0)))
        exp = O.stabilizer(R, T, self.k, tol=1e-7)
        check(irreps, z, U, mp, self.L, R, T, self.k, exp, len(O.pure_translations(R, T)), max(tol, 2e-6), conv=True)

    def _check_cprim(self, out, tol):
        from .props.c06 import check

        co, ind, z, U, al, mp = self._unpack(out, 6)
        check(co, list(ind), z, U, al, mp, self.L, self.R, self.T, self.q, self.k, self.exp, 1, tol)

    def _check_cpg(self, out, tol):
        from .props.c06 import check_pg

        co, ind, z, U, al = self._unpack(out, 5)
        check_pg(co, ind, z, U, al, self.L, self.R, self.q, tol)

    def _check_cconv(self, out, tol):
        from .props.c06 import check

        co, z, U, al, R, T, q, mp = self._unpack(out, 8)
        R, T, q = np.asarray(R), np.asarray(T), np.asarray(q).astype(int)
        O.check_operations(R, T, {x: np.array(self.mag[x]) for x in ("rotations", "translations", "time_reversals")}, q)
        npt = len(O.pure_translations(R, T, q))
        exp = O.stabilizer(R, T, self.k, q, tol=1e-7)
        check(co, None, z, U, al, mp, self.L, R, T, q, self.k, exp, npt, max(tol, 3e-6), conv=True)

    def _check_project(self, out, tol):
        from .props.c07 import check_basis

        check_basis(self.rep, self.irr[self.j], out, int(self.mult[self.j]), self.j, tol)

    def _check_tensors(self, out, tol):
        from .props.c08 import invariance_error

        chi = np.einsum("kii->k", self.rep)
        want = int(np.rint(np.sum(chi**self.rank) / len(chi)))
        need(isinstance(out, (list, tuple)) and len(out) == want, "wrong-number", f"{len(out)} tensors, expected {want}")
        for a, t in enumerate(out):
            t = np.asarray(t)
            need(t.shape == (3,) * self.rank and np.isfinite(t).all() and np.abs(t).max() > 1e-6, "malformed-output", f"tensor {a}")
            need(invariance_error(self.rep, t / np.abs(t).max()) < tol, "not-invariant", f"tensor {a}")
        if out:
            need(np.linalg.matrix_rank(np.array([np.asarray(t).reshape(-1) for t in out]), tol=1e-5) == want, "linearly-dependent", "tensors")

    def _check_decompose(self, out, tol):
        n = len(self.R)
        O.check_shape(out, n)
        O.check_law(out, self.tab, np.ones((n, n)), tol)
        ci, co = O.chars(self.irr), O.chars(out)
        hit = []
        for a, x in enumerate(out):
            need(O.unitary_error(x) < tol, "not-unitary", f"component {a}")
            m = [abs(np.vdot(c, co[a])) / n for c in ci]
            j = int(np.argmax(m))
            need(abs(m[j] - 1) < 1e-3 and self.mult[j] > 0, "wrong-component", f"component {a}")
            hit.append(j)
        need(sorted(hit) == [j for j, m in enumerate(self.mult) if m], "incomplete", f"components {sorted(hit)}")

    def _check_intertwiner(self, U, tol):
        U = np.asarray(U)
        d = self.x.shape[1]
        need(U.shape == (d, d) and np.isfinite(U).all(), "malformed-output", "intertwiner")
        need(np.abs(self.x @ U - U @ self.y).max() < tol, "not-intertwiner", "D1 U != U D2")
        need(abs(np.linalg.det(U) - 1) < tol, "wrong-determinant", f"{np.linalg.det(U)}")

    def _check_regular(self, out, tol):
        n = len(self.exp)
        O.check_shape(out, n)
        O.check_law(out, O.rot_table(self.R[self.exp]), self._mu(), tol)
        O.check_family(out, n, n, tol)

    def _check_factor(self, out, tol):
        mu = np.asarray(out)
        n = len(self.exp)
        need(mu.shape == (n, n) and np.isfinite(mu).all(), "malformed-output", "factor system")
        need(np.abs(mu - self._mu()).max() < tol, "wrong-factor-system", f"error {np.abs(mu - self._mu()).max():.2e}")

    def _check_spinfs(self, out, tol):
        z, U = self._unpack(out, 2)
        r = self.R[self.exp]
        O.check_spin(self.L, r, U, z, O.rot_table(r), tol=tol)

    def _check_corepfs(self, out, tol):
        z, U, al = self._unpack(out, 3)
        al = np.asarray(al)
        need(al.shape == (len(self.R),) and np.array_equal(al.astype(bool), self.q == 1), "wrong-anti-linear", "flags differ from time-reversal parts")
        O.check_spin(self.L, self.R, U, z, O.rot_table(self.R, self.q), tr=self.q, tol=tol)

    def _check_smallsp(self, out, tol):
        from .props.c05 import check

        irreps, z, U = self._unpack(out, 3)
        r, t = self.R[self.exp], self.T[self.exp]
        check(irreps, z, U, np.arange(len(r)), self.L, r, t, self.k, list(range(len(r))), 1, tol)

    def irreps_in(self, out):
        """The list of matrices a result starts with, or None."""
        if self.name in ("intertwiner", "phys", "factor", "project", "tensors"):
            return None
        return out[0] if isinstance(out, tuple) else out

    def empty(self, out):
        """Fail-closed answer: nothing claimed."""
        if self.name in AUX and self.name != "smallsp":
            return False
        if self.name in ("project", "tensors"):
            return isinstance(out, (list, tuple)) and len(out) == 0
        if self.name in ("intertwiner", "phys"):
            # the failure value of these is a zero matrix
            return isinstance(out, np.ndarray) and not np.any(out)
        x = self.irreps_in(out)
        return x is not None and len(x) == 0


def regular_of(tab, mu):
    n = len(tab)
    reg = np.zeros((n, n, n), dtype=complex)
    for a in range(n):
        reg[a, tab[a], np.arange(n)] = mu[a]
    return reg


_IRR: dict = {}


def irreps_of(tab):
    """Irreps of a group from its table, by a method that is not spgrep's.

    Class functions of the left regular representation: a generic Hermitian element of the commutant
    is diagonalised by a library-independent route (real LAPACK, unshimmed)."""
    key = tab.tobytes()
    if key in _IRR:
        return _IRR[key]
    n = len(tab)
    reg = regular_of(tab, np.ones((n, n)))
    g = np.random.Generator(np.random.PCG64(2024))
    e = O.identity(tab)
    inv = np.array([int(np.nonzero(tab[i] == e)[0][0]) for i in range(n)])
    # right translations commute with the left regular representation
    right = np.zeros((n, n, n))
    for a in range(n):
        right[a, tab[np.arange(n), inv[a]], np.arange(n)] = 1
    co = g.standard_normal(n) + 1j * g.standard_normal(n)
    H = np.einsum("a,aij->ij", co, right)
    H = H + H.conj().T
    vals, vecs = seams._ORIG.get("eigh", np.linalg.eigh)(H)
    out, seen = [], []
    i = 0
    while i < n:
        j = i
        while j + 1 < n and abs(vals[j + 1] - vals[i]) < 1e-7 * max(1, abs(vals).max()):
            j += 1
        V = vecs[:, i : j + 1]
        x = np.einsum("ia,kij,jb->kab", V.conj(), reg, V)
        c = np.einsum("kaa->k", x)
        if abs(np.vdot(c, c).real / n - 1) > 1e-6:
            raise RuntimeError("reference decomposition met an accidental degeneracy")
        if all(abs(np.vdot(c, d)) / n < 0.5 for d in seen):
            seen.append(c)
            out.append(x)
        i = j + 1
    order = sorted(range(len(out)), key=lambda a: (out[a].shape[1], a))
    _IRR[key] = [out[a] for a in order]
    if sum(x.shape[1] ** 2 for x in out) != n:
        raise RuntimeError("reference decomposition incomplete")
    return _IRR[key]


def freeze(x):
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.flags.writeable, x.flags.c_contiguous, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    return repr(x)


def flat(out):
    """Result as a list of arrays, structure included."""
    if isinstance(out, (list, tuple)):
        res = [np.array([len(out)])]
        for x in out:
            res += flat(x)
        return res
    if out is None:
        return [np.array("None")]
    return [np.array(out)]


def difference(a, b, tol=1e-7, mod1=False):
    """None, or how two results differ beyond rounding."""
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return f"{len(fa)} and {len(fb)} parts"
    worst = 0.0
    for x, y in zip(fa, fb):
        if x.shape != y.shape:
            return f"shapes {x.shape} and {y.shape}"
        if x.dtype.kind != y.dtype.kind:
            return f"types {x.dtype} and {y.dtype}"
        if x.dtype.kind in "USO":
            if x.tolist() != y.tolist():
                return f"{x.tolist()!r:.40} and {y.tolist()!r:.40}"
        elif x.size:
            e = np.abs(x.astype(complex) - y.astype(complex)).max()
            if mod1 and x.dtype.kind == "f":
                e = np.abs((x - y + 0.5) % 1 - 0.5).max()
            if not np.isfinite(e):
                return "non-finite entries"
            worst = max(worst, float(e))
    return None if worst < tol else f"entries differ by {worst:.2e}"


def out_arrays(out):
    if isinstance(out, np.ndarray):
        return [out]
    if isinstance(out, (list, tuple)):
        return [y for x in out for y in out_arrays(x)]
    return []


def simplify(spec):
    for key in ("ops", "cell"):
        if key in spec:
            for s in W.simplify_ops(spec[key]):
                yield dict(spec, **{key: s})
    if spec.get("k") and spec["fn"] not in ("pg", "pgind", "pgreal", "spg", "cpg"):
        for k in W.simplify_k(spec["k"]):
            yield dict(spec, k=k)
    if spec.get("method") == "random":
        yield dict(spec, method="Neto")
    if spec.get("turn"):
        yield dict(spec, turn=None)
    if spec.get("opts"):
        yield dict(spec, opts={})
    if "hall" in (spec.get("ops") or {}):
        for h in (1, 2, 3, 6, 18, 57, 108, 349, 430, 462, 489):
            if h < spec["ops"]["hall"]:
                yield dict(spec, ops={"hall": h})
                break


__all__ = ["Call", "gen", "flat", "difference", "simplify", "Problem"]
