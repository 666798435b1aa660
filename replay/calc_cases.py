"""Cases for the ASE calculator: the real symmetrix_calc.py with a recording stand-in for the compiled evaluator and a
brute-force oracle for the neighbour sums."""
import importlib.util
import itertools
import logging
import os
import sys
import types

import numpy as np

from cases import R, close, prop      # noqa: F401

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "symmetrix/source/symmetrix")
_calc = None


def mod():
    global _calc
    if _calc is None:
        logging.disable(logging.CRITICAL)
        pk = types.ModuleType("symmetrix")
        pk.__path__ = [SRC]
        sys.modules["symmetrix"] = pk
        m = types.ModuleType("symmetrix.symmetrix")
        m.MACE = Mock
        sys.modules["symmetrix.symmetrix"] = m
        pk.symmetrix = m
        spec = importlib.util.spec_from_file_location("symmetrix.symmetrix_calc", os.path.join(SRC, "symmetrix_calc.py"))
        _calc = importlib.util.module_from_spec(spec)
        sys.modules["symmetrix.symmetrix_calc"] = _calc
        spec.loader.exec_module(_calc)
    return _calc


def pair(c, ti, tj, r):
    """energy and force size of an ordered pair; not symmetric in the types, zero at the cutoff"""
    w = (c["rc"] - r) ** 2
    return w * (1.3 + 0.7 * ti + 0.31 * tj * tj), w * (0.9 + 0.4 * ti - 0.23 * tj)


def site(t):
    return 0.37 + 1.9 * t


class Mock:
    """evaluator by its contract; like the compiled one it keeps its arrays between calls, and the force array never shrinks"""
    case = None

    def __init__(self, fn):
        self.atomic_numbers = list(Mock.case["species"])
        self.r_cut = Mock.case["rc"]
        self.node_energies, self.node_forces = [], []

    def compute_node_energies_forces(self, num_nodes, node_types, num_neigh, neigh_indices, neigh_types, xyz, r):
        ints = [np.asarray(a) for a in (node_types, num_neigh, neigh_indices, neigh_types)]
        for a in ints:
            if a.size and a.dtype.kind not in "iu":
                raise TypeError("integer array expected")
        nt, nn, ni, nj = [a.astype(int).ravel() for a in ints]
        xyz, r = np.asarray(xyz, float).ravel(), np.asarray(r, float).ravel()
        n = int(num_nodes)
        np_ = int(nn[:n].sum()) if n else 0
        if len(nt) < n or len(nn) < n or len(nj) < np_ or len(ni) < np_ or len(xyz) < 3 * np_ or len(r) < np_:
            raise AssertionError("arrays shorter than the system: the compiled code would read out of bounds")
        self.seen = (n, nt, nn, ni, nj, xyz, r)
        E = np.zeros(n)
        F = list(self.node_forces)
        if len(F) < len(xyz):
            F = F + [0.0] * (len(xyz) - len(F))
        p = 0
        for i in range(n):
            E[i] += site(nt[i])
            for _ in range(nn[i]):
                e, f = pair(Mock.case, nt[i], nj[p], r[p])
                E[i] += e
                for x in range(3):
                    F[3 * p + x] = f * xyz[3 * p + x] / r[p]
                p += 1
        self.node_energies, self.node_forces = E.tolist(), F


def oracle(c, s):
    pos, cell, pbc = np.array(s["pos"], float).reshape(-1, 3), np.array(s["cell"], float), s["pbc"]
    n, rc = len(pos), c["rc"]
    E, F, M = np.array([site(c["species"].index(z)) for z in s["Z"]], float), np.zeros((n, 3)), np.zeros((3, 3))
    rep = []
    full = cell.copy()
    # vectors of an incomplete cell are completed orthogonally (never periodic)
    for k in range(3):
        rep.append(range(-int(c["img"]), int(c["img"]) + 1) if pbc[k] else (0,))
    vol = abs(np.linalg.det(full))
    for S in itertools.product(*rep):
        sh = np.dot(S, cell)
        for i in range(n):
            for j in range(n):
                d = pos[j] - pos[i] + sh
                r = np.linalg.norm(d)
                if (i == j and S == (0, 0, 0)) or r >= rc:
                    continue
                ti, tj = c["species"].index(s["Z"][i]), c["species"].index(s["Z"][j])
                e, f = pair(c, ti, tj, r)
                E[i] += e
                v = f * d / r
                F[j] += v
                F[i] -= v
                M += np.outer(v, d)
    return E, F, M, vol


@prop("C20")
class C20:
    def structure(self, g, c, n=None):
        n = g.pick([0, 1, 2, 3, 4, 6, 9]) if n is None else n
        per = g.n(0, 4)          # no cell / slab / wire / bulk
        L = g.u(2.5, 9.0)
        cell = np.diag([g.u(2.4, 8.0) for _ in range(3)])
        if g.coin():
            cell = cell + np.tril(g.g.normal(size=(3, 3)), -1) * 0.6
        if g.coin(0.2):
            cell = cell[::-1].copy()
        pbc = [True] * 3
        if per == 0:
            cell, pbc = np.zeros((3, 3)), [False] * 3
        elif per == 1:
            pbc = [True, True, False]
        elif per == 2:
            pbc = [False] * 3
        elif per == 3 and g.coin(0.5):
            k = g.n(0, 2)
            cell[k] = 0
            pbc[k] = False
        if per == 0 or g.coin(0.3):
            pos = g.g.uniform(0, L, size=(n, 3))
        else:
            pos = np.dot(g.g.uniform(0, 1, size=(n, 3)), cell) + (g.g.uniform(0, 1, size=(n, 3)) if np.linalg.matrix_rank(cell) < 3 else 0)
        if n and g.coin(0.25):
            pos[g.n(0, n - 1)] += 60.0 if not any(pbc) else 0.0
        Z = [g.pick(c["species"]) for _ in range(n)]
        return dict(pos=pos.tolist(), cell=cell.tolist(), pbc=pbc, Z=Z)

    def fixed(self):
        base = dict(species=[8, 1, 79], rc=3.0, img=3)
        cube = np.diag([7.0, 6.0, 5.0]).tolist()
        zero = np.zeros((3, 3)).tolist()
        out = []
        for cell, pbc in ((zero, [False] * 3), (cube, [True] * 3), (cube, [False] * 3)):
            far = [[0, 0, 0], [0, 0.9, 0.4], [40.0, 40.0, 40.0]] if not any(pbc) else [[0, 0, 0], [0, 0.9, 0.4], [3.4, 3.0, 2.4]]
            for order in itertools.permutations(range(3)):
                out.append([dict(pos=[far[k] for k in order], cell=cell, pbc=pbc, Z=[[1, 8, 79][k] for k in order])])
            out.append([dict(pos=[[0, 0, 0]], cell=cell, pbc=pbc, Z=[79])])
            out.append([dict(pos=[], cell=cell, pbc=pbc, Z=[])])
            out.append([dict(pos=[[0, 0, 0], [1, 1, 0]], cell=cell, pbc=pbc, Z=[1, 8]), dict(pos=[[0, 0, 0]], cell=cell, pbc=pbc, Z=[1])])
        return [dict(base, steps=s) for s in out]

    def gen(self, g):
        sp = g.pick([[1], [8, 1], [1, 6, 8], [79, 6, 1, 14]])
        c = dict(species=sp, rc=round(g.u(1.5, 3.6), 3))
        c["steps"] = [self.structure(g, c) for _ in range(g.pick([1, 1, 2, 3]))]
        worst = 1
        for s in c["steps"]:
            cell = np.array(s["cell"])
            if any(s["pbc"]):
                k = np.linalg.matrix_rank(cell)
                full = cell.copy()
                if k < 3:
                    z = [q for q in range(3) if not cell[q].any()]
                    for q in z:
                        full[q] = np.cross(full[(q + 1) % 3], full[(q + 2) % 3]) if len(z) == 1 else np.eye(3)[q]
                vol = abs(np.linalg.det(full))
                for q in range(3):
                    a, b = full[(q + 1) % 3], full[(q + 2) % 3]
                    hgt = vol / np.linalg.norm(np.cross(a, b))
                    ext = np.abs(np.linalg.solve(full.T, np.array(s["pos"]).reshape(-1, 3).T)).max() if s["pos"] else 0
                    worst = max(worst, int(np.ceil(c["rc"] / hgt + 2 * ext)) + 1)
        c["img"] = min(worst, 6)
        return c

    def run(self, c):
        from ase import Atoms
        Mock.case = c
        calc = mod().Symmetrix("mock.json", use_kokkos=False)
        for k, s in enumerate(c["steps"]):
            at = Atoms(numbers=s["Z"], positions=np.array(s["pos"], float).reshape(-1, 3), cell=s["cell"], pbc=s["pbc"])
            E, F, M, vol = oracle(c, s)
            n = len(E)
            sc = 1.0 + np.abs(E).sum() + np.abs(M).sum()
            calc.reset()
            calc.calculate(at)
            r = calc.results
            where = "structure %d of %d (%d atoms): " % (k + 1, len(c["steps"]), n)
            if np.shape(r["energies"]) != (n,):
                return where + "energies has shape %s" % (np.shape(r["energies"]),)
            if np.shape(r["forces"]) != (n, 3):
                return where + "forces has shape %s" % (np.shape(r["forces"]),)
            if not close(r["energies"], E, sc):
                return where + "energies %s, expected %s" % (np.asarray(r["energies"]).tolist(), E.tolist())
            for key in ("energy", "free_energy"):
                if not close(r[key], E.sum(), sc):
                    return where + "%s %r, expected %r" % (key, r[key], E.sum())
            if not close(r["forces"], F, sc):
                return where + "forces %s, expected %s" % (np.asarray(r["forces"]).tolist(), F.tolist())
            if n and not close(np.sum(r["forces"], axis=0), np.zeros(3), sc * (1 + np.abs(F).sum())):
                return where + "forces add up to %s" % np.sum(r["forces"], axis=0)
            if at.cell.rank == 3:
                st = -M / vol
                want = [st[0, 0], st[1, 1], st[2, 2], st[1, 2], st[0, 2], st[0, 1]]
                if "stress" not in r or not close(r["stress"], want, (1 + np.abs(M).sum()) / vol):
                    return where + "stress %s, expected %s" % (r.get("stress"), want)
        return None
