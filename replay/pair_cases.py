"""Cases for the LAMMPS pair style (C21): the real pair_symmetrix_mace.cpp on simulated ranks, against one evaluation of the whole
periodic system by the model itself."""
import itertools
import json
import os
import sys
import tempfile

import numpy as np

from cases import D, close, prop
from mace_cases import gen_model, model

vpair = None
SYM = ["H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V",
       "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr"]
SYM += ("Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn "
        "Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()
MODES = ["no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing"]


def mod():
    global vpair
    if vpair is None:
        sys.path.insert(0, D)
        import vpair as v
        vpair = v
    return vpair


def images(pos, box, cut):
    """all periodic images: (atom, position); the original first"""
    n = [int(np.ceil(cut / b)) + 1 for b in box]
    out = [(i, np.array(p), (0, 0, 0)) for i, p in enumerate(pos)]
    for s in itertools.product(*[range(-k, k + 1) for k in n]):
        if any(s):
            for i, p in enumerate(pos):
                out.append((i, p + np.array(s) * box, s))
    return out


@prop("C21")
class _C21:
    def gen(self, r):
        c = gen_model(r)
        c["nn"] = r.n(5, 7)
        c["nc"] = r.n(1, 3)
        self.k = getattr(self, "k", r.n(0, 117)) + c["ne"]             # every element within some 60 cases
        c["Z"] = sorted((self.k - q) % 118 + 1 for q in range(c["ne"]))
        P = r.pick([1, 1, 2, 2, 3])
        mode = r.pick(MODES + ["default"]) if P == 1 else r.pick(MODES[1:] + ["default"])
        n = r.pick([1, 2, 3, 4, 5, 6])
        per = r.coin(0.7)
        box = [r.u(1.2, 3.0) if per else 40.0 for _ in range(3)]
        pos = []
        for _ in range(200):
            q = np.array([r.u(0, min(b, 3.0)) for b in box])
            d = [np.linalg.norm((q - p) - np.round((q - p) / box) * box) for p in pos]
            if all(x > 0.45 for x in d):
                pos.append(q)
            if len(pos) == n:
                break
        n = len(pos)
        return dict(model=c, P=P, mode=mode, box=box, pos=[[float(y) for y in x] for x in pos],
                    types=[r.n(1, c["ne"]) for _ in range(n)] if r.coin(0.9) else [1] * n, owner=[r.n(0, P - 1) for _ in range(n)],
                    perm=[int(x) for x in r.g.permutation(c["ne"])], skin=r.pick([0.0, 0.3]), repeat=r.pick([1, 1, 2]), vflag=r.pick([0, 1, 2]), eflag=r.pick([1, 3, 3, 2, 0]),
                    ccut=r.pick([0.0, 1.0, 1.5, 3.0]), twice=r.coin(0.2), seed=r.n(0, 2 ** 31))

    def run(self, k):
        v = mod()
        c = k["model"]
        f = model(c)
        rc = f["r_cut"]
        g = np.random.default_rng(k["seed"])
        box, pos = np.array(k["box"]), np.array(k["pos"], float).reshape(-1, 3)
        n, P = len(pos), k["P"]
        mode = k["mode"] if k["mode"] != "default" else (MODES[0] if P == 1 else MODES[1])
        elements = [SYM[c["Z"][q] - 1] for q in k["perm"]]           # LAMMPS type t is element perm[t-1]
        mt = [k["perm"][t - 1] for t in k["types"]]
        fd, path = tempfile.mkstemp(suffix=".json", dir=D)
        try:
            with os.fdopen(fd, "w") as o:
                json.dump(f, o)
            m = v.MACE(path)
            # the whole system at once
            reach = (2 if mode == MODES[2] else 1) * rc + k["skin"]
            im = images(pos, box, reach)
            num, idx, xyz = [], [], []
            for i in range(n):
                cnt = 0
                for j, p, s in im:
                    d = p - pos[i]
                    if (j != i or any(s)) and d @ d < rc * rc:
                        cnt += 1
                        idx.append(j)
                        xyz.append(d)
                num.append(cnt)
            xyz = np.array(xyz).reshape(-1, 3)
            e, F = m.compute(n, mt, num, idx, [mt[j] for j in idx], xyz.ravel().tolist(), np.linalg.norm(xyz, axis=1).tolist())
            e, F = np.array(e), np.array(F).reshape(-1, 3)
            want = np.zeros((n, 3))
            mag = np.ones((n, 3)) * 1e-3
            cen = [i for i in range(n) for _ in range(num[i])]
            for a, (i, j) in enumerate(zip(cen, idx)):
                want[i] -= F[a]
                want[j] += F[a]
                mag[i] += np.abs(F[a])
                mag[j] += np.abs(F[a])
            V = np.array([(xyz[:, a] * F[:, b] + xyz[:, b] * F[:, a]).sum() / 2 for a, b in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))])
            Vmag = np.abs(xyz[:, :, None] * F[:, None, :]).sum() + 1
            # ranks
            ranks, local = [], []
            for p in range(P):
                own = [i for i in range(n) if k["owner"][i] == p]
                own = [own[int(q)] for q in g.permutation(len(own))]
                local.append(own)
            for p in range(P):
                own = local[p]
                tag = [i + 1 for i in own]
                x = [pos[i] for i in own]
                first, cnt, who = [], [], []
                for q in range(P):
                    gh = []
                    for j, y, s in im:
                        if k["owner"][j] == q and not (q == p and not any(s)):
                            if any((y - pos[i]) @ (y - pos[i]) <= reach * reach for i in own):
                                gh.append((j, y))
                    gh = [gh[int(t)] for t in g.permutation(len(gh))]
                    first.append(len(x))
                    cnt.append(len(gh))
                    who.append([local[q].index(j) for j, _ in gh])
                    tag += [j + 1 for j, _ in gh]
                    x += [y for _, y in gh]
                x = np.array(x).reshape(-1, 3)
                rows = []
                for a in range(len(x)):
                    row = []
                    if a < len(own) or mode == MODES[2]:
                        d2 = ((x - x[a]) ** 2).sum(1)
                        row = [int(b) for b in np.nonzero(d2 <= (rc + k["skin"]) ** 2)[0] if b != a]
                        row = [row[int(t)] for t in g.permutation(len(row))]
                        row = [int(np.int32(np.uint32(b | (int(g.integers(0, 8)) << 29)))) if g.random() < 0.2 else b for b in row]
                    rows.append(row)
                ranks.append(dict(tag=tag, type=[k["types"][t - 1] for t in tag], x=x.tolist(), f=g.normal(size=x.shape).round(3).tolist(), nlocal=len(own),
                                  inum=len(own), ilist=list(range(len(x) if mode == MODES[2] else len(own))), neigh=rows, recv_first=first, recv_n=cnt, who=who))
            for p in range(P):
                ranks[p]["send"] = [ranks[q]["who"][p] for q in range(P)]
            for p in range(P):
                ranks[p].pop("who")
            # note: who is indexed [receiver][owner]; a rank's send list for q is what q receives from it
            out = v.run(path, k["mode"], elements, ranks, k["eflag"], k["vflag"], k["skin"], k["repeat"], (rc + k["skin"]) * k.get("ccut", 0.0), k.get("twice", False))["ranks"]
        finally:
            os.unlink(path)
        tot = np.zeros((n, 3))
        for p, d in enumerate(out):
            df = np.array(d["f"]).reshape(-1, 3) - np.array(ranks[p]["f"]).reshape(-1, 3)
            for t, y in zip(ranks[p]["tag"], df):
                tot[t - 1] += y
            if any(abs(y - rc) > 1e-12 for y in d["init_one"]):
                return "init_one gives %r, the model's cutoff is %r" % (d["init_one"], rc)
            if mode == MODES[2] and (d["cutoff"] < 2 * rc + k["skin"] - 1e-4 or not d["request"] & 2):
                return "no_mpi_message_passing needs ghosts within %r and their neighbours, got %r, request %r" % (2 * rc + k["skin"], d["cutoff"], d["request"])
            if not d["refused"]:
                return "a run without newton's third law is accepted: forces on ghosts would be lost"
            if not d["request"] & 1:
                return "a full neighbour list is needed"
        head = "mode %s, %d ranks, %d atoms: " % (k["mode"], P, n)
        if not close(tot, want, mag, 1e-7):
            return head + "forces %s, whole system at once %s" % (tot.tolist(), want.tolist())
        E = sum(d["energy"] for d in out)
        if k["eflag"] & 1 and not abs(E - e.sum()) <= 1e-8 * (np.abs(e).sum() + 1):
            return head + "energy %r, whole system at once %r" % (E, e.sum())
        if k["eflag"] & 2:
            for p, d in enumerate(out):
                if not close(d["eatom"][:len(local[p])], e[local[p]], np.abs(e[local[p]]) + 1, 1e-8):
                    return head + "atomic energies of rank %d %s, whole system at once %s" % (p, d["eatom"][:len(local[p])], e[local[p]].tolist())
        if k["vflag"]:
            W = np.sum([d["virial"] for d in out], axis=0)
            if not close(W, V, Vmag * np.ones(6), 1e-8):
                return head + "virial %s, whole system at once %s" % (W.tolist(), V.tolist())
