"""Cases for the full model (mace.cpp), compiled with a stand-in for sphericart."""
import itertools
import json
import os
import sys
import tempfile

import numpy as np

from cases import D, R, close, prop      # noqa: F401

vmace = None


def mod():
    global vmace
    if vmace is None:
        sys.path.insert(0, D)
        import vmace as v
        vmace = v
    return vmace


def spline(g, n, scale=1.0):
    return (g.normal(size=n) * scale).tolist(), (g.normal(size=n) * scale).tolist()


def model(c):
    """JSON model from a shape and a seed: every table is random, so that nothing cancels"""
    g = np.random.default_rng(c["seed"])
    ne, nc, l, L = c["ne"], c["nc"], c["l"], c["L"]
    nlm, nLM = (l + 1) ** 2, (L + 1) ** 2
    npair = ne * (ne + 1) // 2
    h, nn = c["h"], c["nn"]
    s = 1.0 / np.sqrt(nc)
    W = lambda *sh: (g.normal(size=sh) * s).ravel().tolist()
    paths = c["paths"]                       # (l, l1, l2), sorted by l
    nlme = sum(2 * p[0] + 1 for p in paths)
    nlel = sum((2 * p[1] + 1) * (2 * p[2] + 1) for p in paths)
    ncg = c["ncg"]

    def tables(m, scale=1.0):
        v, d = [], []
        for _ in range(npair):
            a = g.normal(size=(m, nn)) * scale
            b = g.normal(size=(m, nn)) * scale
            v.append(a.tolist())
            d.append(b.tolist())
        return v, d
    R0v, R0d = tables((l + 1) * nc)
    R1v, R1d = tables(len(paths) * nc)

    def scal():
        v, d = [], []
        for _ in range(npair):
            v.append(g.uniform(0.1, 0.6, nn).tolist())
            d.append((g.normal(size=nn) * 0.05).tolist())
        return v, d
    A0v, A0d = scal()
    A1v, A1d = scal()

    def monos(k):
        out = []
        for _ in range(k):
            m = sorted(int(x) for x in g.integers(0, nlm, int(g.integers(1, 4))))
            if m not in out:
                out.append(m)
        return out
    M0m = {str(i): monos(4) for i in range(nLM)}
    M1m = monos(5)
    f = dict(num_elements=ne, num_channels=nc, r_cut=h * (nn - 1) * 0.99, l_max=l, L_max=L,
             atomic_numbers=c["Z"], atomic_energies=g.normal(size=ne).tolist(), has_zbl=c["zbl"],
             radial_spline_h=h, radial_spline_values_0=R0v, radial_spline_derivs_0=R0d,
             radial_spline_values_1=R1v, radial_spline_derivs_1=R1d,
             H0_weights=W(ne, nc), A0_weights=[[W(nc, nc) for _ in range(l + 1)] for _ in range(ne)],
             A0_scaled=c["A0s"], M0_monomials=M0m,
             M0_weights={str(a): {str(i): {str(k): (g.normal(size=len(M0m[str(i)])) * 0.5).tolist() for k in range(nc)}
                                  for i in range(nLM)} for a in range(ne)},
             H1_weights=W(L + 1, nc, nc), Phi1_l=[p[0] for p in paths], Phi1_l1=[p[1] for p in paths], Phi1_l2=[p[2] for p in paths],
             Phi1_lme=[int(x) for x in g.integers(0, nlme, ncg)], Phi1_clebsch_gordan=(g.normal(size=ncg)).tolist(),
             Phi1_lelm1lm2=[int(x) for x in g.integers(0, nlel, ncg)],
             A1_weights=[W(sum(p[0] == q for p in paths) * nc, nc) for q in range(l + 1)], A1_scaled=c["A1s"],
             M1_monomials=M1m, M1_weights={str(a): {str(k): (g.normal(size=len(M1m)) * 0.5).tolist() for k in range(nc)} for a in range(ne)},
             H2_weights_for_H1=[W(nc, nc) for _ in range(ne)], H2_weights_for_M1=W(nc, nc), readout_1_weights=g.normal(size=nc).tolist(),
             readout_2_weights_1=W(16, nc), readout_2_weights_2=(g.normal(size=16) * 0.3).tolist(), readout_2_scale_factor=1.6)
    if c["zbl"]:
        f.update(zbl_a_exp=0.3, zbl_a_prefactor=0.9, zbl_c=[0.1818, 0.5099, 0.2802, 0.02817],
                 zbl_covalent_radii=(0.4 + 0.02 * np.arange(120)).tolist(), zbl_p=c.get("zp", 6))
    if c["A0s"]:
        f.update(A0_spline_h=h, A0_spline_values=A0v, A0_spline_derivs=A0d)
    if c["A1s"]:
        f.update(A1_spline_h=h, A1_spline_values=A1v, A1_spline_derivs=A1d)
    return f


def load(f):
    fd, p = tempfile.mkstemp(suffix=".json", dir=D)
    try:
        with os.fdopen(fd, "w") as o:
            json.dump(f, o)
        return mod().MACE(p)
    finally:
        os.unlink(p)


def gen_model(r):
    l = r.pick([0, 1, 1, 2, 3])
    L = r.n(0, l)
    paths = sorted([r.n(0, l), r.n(0, l), r.n(0, L)] for _ in range(r.n(1, 5)))
    ne = r.size(1, 3, 6)
    Z = sorted({r.n(1, 30) for _ in range(ne)})
    return dict(ne=len(Z), Z=Z, nc=r.n(1, 4), l=l, L=L, paths=paths, ncg=r.n(1, 12), h=0.3, nn=r.n(6, 14), zbl=r.coin(), zp=r.n(2, 7),
                A0s=r.coin(), A1s=r.coin(), seed=r.n(0, 2 ** 31))


def gen_system(r, c):
    n = r.pick([1, 1, 2, 2, 3, 4, 5])
    deg = [r.pick([0, 1, 2, 2, 3]) for _ in range(n)]
    P = sum(deg)
    xyz, idx = [], []
    for _ in range(P):
        t = c["h"] * (r.n(1 if r.coin(0.8) else 0, c["nn"] - 2) + r.u(0.2, 0.8))
        v = r.g.normal(size=3)
        v = v / np.linalg.norm(v) * t
        xyz.append([float(q) for q in v])
        idx.append(r.n(0, n - 1))
    ty = [r.n(0, c["ne"] - 1) for _ in range(n)]
    return dict(n=n, deg=deg, idx=idx, types=ty, xyz=xyz)


def call(o, s, xyz):
    xyz = np.asarray(xyz, float).reshape(-1, 3)
    r = np.sqrt((xyz * xyz).sum(1))
    nt = np.array([s["types"][k] for k in s["idx"]], np.int32)
    o.compute_node_energies_forces(s["n"], np.array(s["types"], np.int32), np.array(s["deg"], np.int32),
                                   np.array(s["idx"], np.int32), nt, xyz.ravel(), r)
    return np.array(o.node_energies), np.array(o.node_forces)


@prop("C18")
class _C18:
    def gen(self, r):
        c = gen_model(r)
        return dict(model=c, systems=[gen_system(r, c) for _ in range(r.n(1, 3))], pick=r.n(0, 2 ** 31))

    def run(self, k):
        c = k["model"]
        f = model(c)
        o = load(f)
        g = np.random.default_rng(k["pick"])
        for si, s in enumerate(k["systems"]):
            xyz = np.array(s["xyz"], float).reshape(-1, 3)
            e, F = call(o, s, xyz)
            if len(e) != s["n"] or len(F) != 3 * len(xyz):
                return "system %d: %d energies and %d force entries for %d atoms and %d pairs" % (si, len(e), len(F), s["n"], len(xyz))
            fresh = load(f)
            e2, F2 = call(fresh, s, xyz)
            if not close(e, e2, np.abs(e2) + 1, 1e-8) or not close(F, F2, np.abs(F2) + 1e-2 * (np.abs(F2).max() if len(F2) else 1), 1e-8):
                return "system %d: result depends on earlier systems: energies %r, on a fresh model %r" % (si, e.tolist(), e2.tolist())
            F = F.reshape(-1, 3)
            d = 5e-4
            scale = np.abs(F).max() if len(F) else 0.0
            escale = np.abs(e).sum() + 1
            todo = [(p, q) for p in range(len(xyz)) for q in range(3)]
            if len(todo) > 12:
                todo = [todo[int(i)] for i in g.choice(len(todo), 12, replace=False)]
            for p, q in todo:
                E = []
                for t in (-2, -1, 1, 2):
                    x = xyz.copy()
                    x[p, q] += t * d
                    E.append(call(fresh, s, x)[0].sum())
                num = -(E[0] - 8 * E[1] + 8 * E[2] - E[3]) / (12 * d)
                escale2 = max(escale, np.abs(E).max())
                tol = 1e-6 * (abs(num) + scale) + 1e-10 * escale2 / d
                if not abs(F[p, q] - num) <= tol:
                    # steep regions: the difference quotient must have converged before it counts
                    E2 = []
                    for t in (-2, -1, 1, 2):
                        x = xyz.copy()
                        x[p, q] += t * d / 2
                        E2.append(call(fresh, s, x)[0].sum())
                    n2 = -(E2[0] - 8 * E2[1] + 8 * E2[2] - E2[3]) / (6 * d)
                    if abs(n2 - num) <= 0.1 * abs(F[p, q] - n2):
                        return "system %d pair %d component %d: force %r, minus dE/dxyz %r (pair vector %r)" % (si, p, q, F[p, q], num, s["xyz"][p])


def harmonics(l_max, v):
    """real spherical harmonics of the direction of v, times 2 sqrt(pi), by their closed sums"""
    import math
    x, y, z = np.asarray(v, float) / np.linalg.norm(v)
    out = []
    for l in range(l_max + 1):
        for m in range(-l, l + 1):
            a = abs(m)
            ang = ((x + 1j * y) ** a).imag if m < 0 else ((x + 1j * y) ** a).real
            # d^a P_l / dz^a from the monomial form of the Legendre polynomial
            p = 0.0
            for k in range(l // 2 + 1):
                d = l - 2 * k
                if d >= a:
                    cf = (-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) / 2.0 ** l
                    p += cf * math.factorial(d) / math.factorial(d - a) * z ** (d - a)
            n = math.sqrt((2 * l + 1) * math.factorial(l - a) / math.factorial(l + a)) * (math.sqrt(2.0) if m else 1.0)
            out.append(n * p * ang)
    return np.array(out)


def energies(f, s, xyz, A=lambda x: x):
    """the formula of C26 on the file's entries; with A = abs, a bound on the sizes of its terms"""
    from cases import hermite, silu, zbl_pair
    ne, nc, l, L = f["num_elements"], f["num_channels"], f["l_max"], f["L_max"]
    nlm, nLM = (l + 1) ** 2, (L + 1) ** 2
    n, ty = s["n"], s["types"]
    arr = lambda k, *sh: A(np.array(f[k], float).reshape(sh))
    own = np.repeat(np.arange(n), s["deg"])
    r = [float(np.linalg.norm(v)) for v in xyz]
    no = {}
    for a in range(ne):
        for b in range(a, ne):
            no[a, b] = no[b, a] = len(set(no.values()))
    tab = [no[ty[i], ty[j]] for i, j in zip(own, s["idx"])]
    spl = lambda w, p: A(np.array([hermite(f["radial_spline_h"], v, d, r[p])[0] for v, d in
                                   zip(f["radial_spline_values_%d" % w][tab[p]], f["radial_spline_derivs_%d" % w][tab[p]])]))
    Y = [A(harmonics(l, (v[2], v[0], v[1]))) for v in xyz]
    deg = [q for q in range(l + 1) for _ in range(2 * q + 1)]
    H0 = arr("H0_weights", ne, nc)

    def scaled(w, X):
        if not f["A%d_scaled" % w]:
            return X
        d = np.ones(n)
        for p in range(len(xyz)):
            d[own[p]] += hermite(f["A%d_spline_h" % w], f["A%d_spline_values" % w][tab[p]], f["A%d_spline_derivs" % w][tab[p]], r[p])[0]
        return X / d[:, None, None]

    def poly(mons, ws, x):
        return sum(A(w) * np.prod([x[v] for v in m]) for m, w in zip(mons, ws))
    Phi0 = np.zeros((n, nlm, nc))
    R0 = [spl(0, p).reshape(l + 1, nc) for p in range(len(xyz))]
    R1 = [spl(1, p).reshape(-1, nc) for p in range(len(xyz))]
    for p in range(len(xyz)):
        Phi0[own[p]] += R0[p][deg] * Y[p][:, None] * H0[ty[s["idx"][p]]]
    A0 = np.zeros((n, nlm, nc))
    for i in range(n):
        for a in range(nlm):
            A0[i, a] = Phi0[i, a] @ A(np.array(f["A0_weights"][ty[i]][deg[a]], float).reshape(nc, nc))
    A0 = scaled(0, A0)
    M0 = np.zeros((n, nLM, nc))
    for i in range(n):
        for a in range(nLM):
            for k in range(nc):
                M0[i, a, k] = poly(f["M0_monomials"][str(a)], f["M0_weights"][str(ty[i])][str(a)][str(k)], A0[i, :, k])
    W1 = arr("H1_weights", L + 1, nc, nc)
    H1 = np.array([[M0[i, a] @ W1[deg[a]] for a in range(nLM)] for i in range(n)])
    P = list(zip(f["Phi1_l"], f["Phi1_l1"], f["Phi1_l2"]))
    Phi1r = [np.zeros((0, nc))] * n
    nle = sum((2 * b + 1) * (2 * c + 1) for _, b, c in P)
    Phi1r = np.zeros((n, nle, nc))
    for p in range(len(xyz)):
        u = 0
        for e, (_, b, c) in enumerate(P):
            for m1 in range(2 * b + 1):
                for m2 in range(2 * c + 1):
                    Phi1r[own[p], u] += R1[p][e] * Y[p][b * b + m1] * H1[s["idx"][p], c * c + m2]
                    u += 1
    Phi1 = np.zeros((n, sum(2 * a + 1 for a, _, _ in P), nc))
    for t, u, C in zip(f["Phi1_lme"], f["Phi1_lelm1lm2"], f["Phi1_clebsch_gordan"]):
        Phi1[:, t] += A(C) * Phi1r[:, u]
    A1 = np.zeros((n, nlm, nc))
    for i in range(n):
        pos, flat = 0, Phi1[i].ravel()
        for q in range(l + 1):
            ke = sum(a == q for a, _, _ in P) * nc
            W = A(np.array(f["A1_weights"][q], float).reshape(ke, nc))
            for m in range(2 * q + 1):
                A1[i, q * q + m] = flat[pos:pos + ke] @ W
                pos += ke
    A1 = scaled(1, A1)
    M1 = np.array([[poly(f["M1_monomials"], f["M1_weights"][str(ty[i])][str(k)], A1[i, :, k]) for k in range(nc)] for i in range(n)])
    E = np.zeros(n)
    w1, U = arr("readout_1_weights", nc), arr("H2_weights_for_M1", nc, nc)
    V1, V2 = arr("readout_2_weights_1", 16, nc), arr("readout_2_weights_2", 16)
    for i in range(n):
        H2 = H1[i, 0] @ A(np.array(f["H2_weights_for_H1"][ty[i]], float).reshape(nc, nc)) + M1[i] @ U
        pre = V1 @ H2
        act = f["readout_2_scale_factor"] * (silu(pre) if A(-1) < 0 else np.abs(pre) * 1.1)
        E[i] = A(f["atomic_energies"][ty[i]]) + w1 @ H1[i, 0] + V2 @ act
    if f["has_zbl"]:
        c = dict(apre=f["zbl_a_prefactor"], aexp=f["zbl_a_exp"], c=f["zbl_c"], rad=f["zbl_covalent_radii"], p=f["zbl_p"])
        Z = f["atomic_numbers"]
        for p in range(len(xyz)):
            E[own[p]] += A(zbl_pair(c, Z[ty[own[p]]], Z[ty[s["idx"][p]]], r[p])[0])
    return E


@prop("C26")
class _C26:
    """energies against the formula on the file's entries, after other evaluations on the same object"""

    def fixed(self):
        base = dict(nc=2, l=1, L=1, paths=[[0, 0, 0], [1, 1, 0], [1, 0, 1]], ncg=5, h=0.3, nn=8, zbl=False, zp=5, A0s=True, A1s=True, seed=3, ne=2, Z=[1, 8])
        big = dict(n=3, deg=[2, 2, 1], idx=[1, 2, 0, 2, 1], types=[0, 1, 1], xyz=[[0.7, 0.2, 0.1], [0.1, 0.9, 0.3], [-0.7, 0.2, 0.4], [0.3, 0.2, -0.8], [0.5, 0.5, 0.5]])
        alone = dict(n=1, deg=[0], idx=[], types=[1], xyz=[])
        two = dict(n=2, deg=[1, 0], idx=[1], types=[1, 0], xyz=[[0.2, -0.4, 0.9]])
        for z in (False, True):
            yield dict(model=dict(base, zbl=z), systems=[big, alone, two, big, dict(alone, n=0, deg=[], types=[])])
            yield dict(model=dict(base, zbl=z, l=3, L=2, nc=3, A0s=False, paths=[[0, 1, 1], [1, 1, 2], [2, 2, 0], [3, 3, 0]], ncg=11), systems=[alone, big, two, big])

    def gen(self, r):
        c = gen_model(r)
        return dict(model=c, systems=[gen_system(r, c) for _ in range(r.n(1, 4))])

    def run(self, k):
        f = model(k["model"])
        o = load(f)
        for si, s in enumerate(k["systems"]):
            xyz = np.array(s["xyz"], float).reshape(-1, 3)
            e = call(o, s, xyz)[0]
            want, size = energies(f, s, xyz), energies(f, s, xyz, np.abs)
            if len(e) != s["n"] or not close(e, want, size + 1, 1e-9):
                return "system %d: energies %r, formula %r" % (si, e.tolist(), want.tolist())


@prop("C19")
class _C19:
    """every table holds a constant that names it; every ordered pair of types has to find its own"""

    def fixed(self):
        for n in range(1, 9):
            for seed in (0, 1):
                yield dict(n=n, seed=seed)

    def gen(self, r):
        return dict(n=r.size(1, 12, 40), seed=r.n(0, 2 ** 31))

    def run(self, k):
        n = k["n"]
        g = np.random.default_rng(k["seed"])
        c = dict(ne=n, Z=list(range(1, n + 1)), nc=1, l=0, L=0, paths=[[0, 0, 0]], ncg=1, h=0.5, nn=3, zbl=False, A0s=True, A1s=True, seed=5)
        f = model(c)
        npair = n * (n + 1) // 2
        for t in range(npair):
            f["radial_spline_values_0"][t] = [[100.0 + t] * 3]
            f["radial_spline_derivs_0"][t] = [[0.0] * 3]
            f["radial_spline_values_1"][t] = [[1000.0 + t] * 3]
            f["radial_spline_derivs_1"][t] = [[0.0] * 3]
            for a in ("A0", "A1"):
                f[a + "_spline_values"][t] = [0.5 * x * (t + 1) + t for x in range(3)]
                f[a + "_spline_derivs"][t] = [1.0 * (t + 1)] * 3
        o = load(f)
        num = {}
        for i in range(n):
            for j in range(i, n):
                num[i, j] = num[j, i] = len(set(num.values()))
        pairs = list(itertools.product(range(n), range(n)))
        if n > 8:
            pairs = [pairs[int(q)] for q in g.choice(len(pairs), 60, replace=False)] + [(n - 1, n - 1), (n - 1, 0), (0, n - 1), (0, 0)]
        ti = np.array([p[0] for p in pairs], np.int32)
        tj = np.array([p[1] for p in pairs], np.int32)
        m = len(pairs)
        one = np.ones(m, np.int32)
        r = np.full(m, 0.25)
        want = np.array([num[p] for p in pairs], float)
        o.compute_R0(m, ti, one, tj, r)
        o.compute_R1(m, ti, one, tj, r)
        for nm, got, base in (("R0", o.R0, 100.0), ("R1", o.R1, 1000.0)):
            got = np.array(got) - base
            if got.shape != want.shape or np.any(np.abs(got - want) > 1e-9):
                b = int(np.argmax(np.abs(got - want)))
                return "%s for types (%d,%d) of %d uses table %r, expected %d" % (nm, ti[b], tj[b], n, got[b], want[b])
        xyz = np.tile([0.15, 0.0, 0.2], (m, 1))
        for a in ("A0", "A1"):
            fac = 1 + 0.25 * (want + 1) + want
            setattr(o, a, [1.0] * m)
            getattr(o, "compute_%s_scaled" % a)(m, ti, one, tj, r)
            got = 1 / np.array(getattr(o, a))
            if np.any(np.abs(got - fac) > 1e-9 * fac):
                b = int(np.argmax(np.abs(got - fac)))
                return "%s scale for types (%d,%d) of %d is %r, expected %r" % (a, ti[b], tj[b], n, got[b], fac[b])
            setattr(o, a, [1.0] * m)
            setattr(o, a + "_adj", [1.0] * m)
            o.node_forces = [0.0] * (3 * m)
            getattr(o, "reverse_%s_scaled" % a)(m, ti, one, tj, xyz.ravel(), r)
            adj = np.array(getattr(o, a + "_adj"))
            F = np.array(o.node_forces).reshape(-1, 3)
            if np.any(np.abs(1 / adj - fac) > 1e-9 * fac) or np.any(np.abs(F[:, 2] - (want + 1) / fac * 0.8) > 1e-9 * (want + 1)):
                b = int(np.argmax(np.abs(F[:, 2] - (want + 1) / fac * 0.8) + np.abs(1 / adj - fac)))
                return "reverse %s scale for types (%d,%d) of %d: adjoint %r force %r" % (a, ti[b], tj[b], n, adj[b], F[b].tolist())
