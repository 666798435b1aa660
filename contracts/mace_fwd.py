"""C26: the model energy is the two-layer formula of the parameters and the system.

Each forward stage is run on a generic state: the arrays it takes have the stated sizes, every other array of the object
(its own results included) has any size and content, whatever earlier evaluations left there.  Every cell it writes then equals
the formula below, p running over the pairs off(i)+j, j < num_neigh(i), of atom i, t(i) its type, s(p) the type and n(p) the
number of the neighbour:

  R0(p,l,k), R1(p,e,k)  splines of the table of the unordered pair {t(i), s(p)} at r(p)
  Y(p,lm)            = 2 sqrt(pi) SH(lm, z, x, y)
  A0(i,lm,k)         = sum_k' (sum_p R0(p,l,k') Y(p,lm) H0(s(p),k')) W0(t(i),l,k',k)      lm = l*l+m, then divided by
                       1 + sum_p S0(t(i),s(p),r(p)) if the model scales; the same for A1
  M0(i,a,k)          = P0[t(i),a,k](A0(i,.,k))
  H1(i,lm,k)         = sum_k' M0(i,lm,k') W1(l,k',k)
  Phi1r(i,e,m1,m2,k) = sum_p R1(p,e,k) Y(p,l1(e)^2+m1) H1(n(p),l2(e)^2+m2,k)
  Phi1(i,u,k)        = sum over the Clebsch-Gordan entries c with lme(c) == u of C(c) Phi1r(i,lelm1lm2(c),k)
  A1(i,lm,k)         = sum_q Phi1(i,l,m,q) W(l,q,k)
  M1(i,k)            = P1[t(i),k](A1(i,.,k))
  H2(i,k)            = sum_k' H1(i,0,k') V(t(i),k',k) + M1(i,k') U(k',k)
  energy(i)          += E(t(i)) + sum_k w(k) H1(i,0,k) + readout2(H2(i,.))

compute_node_energies_forces: each stage is called once, on the caller's arrays, and takes what the stages before it made;
energies start from zero and only ZBL and the readouts add to them."""
from contracts.mace_adj import *
from contracts.mace_adj import Model, Stage, rng, run_Y, st_whole, ACCESS
from vc.stdmodel import sqrt_
from contracts.mace import radial, scale, Mace

I = lambda nm, *a: app(nm, a, "I")


class Fwd:
    """the forward code of one stage on a generic state"""

    def __init__(self, m, name, fields):
        self.m, self.name, self.fn = m, "compute_" + name, CLS + "::compute_" + name
        self.st = m.begin(*fields)
        m.call(self.st, self.name)
        m.frame(self.st, self.name, Stage.WRITES[self.name])
        Stage.sizes(self, self.name)
        m.S.take(m.ex)
        self.ctx = self.st.ctx

    WRITES = Stage.WRITES
    S = property(lambda self: self.m.S)

    def cell(self, k, ctx, *ix):
        return self.m.read(self.st, k, ctx, *ix)

    def says(self, what, ctx, a, b):
        self.S.eq("%s after %s" % (what, self.name), ctx, a, b, fn=self.fn)


def pairs_of(m, i, f):
    j = fresh("j")
    return mk_msum([(j, I("num_neigh", i))], f(m.off(i) + j))


def lm_of(m, l1):
    """a generic (l, m): l < l1, m <= 2l, and their place"""
    l, mm = var("l"), var("m")
    return l, mm, l * l + mm, rng((l, l1), (mm, 2 * l + 1))


def f_A0(m):
    s = Fwd(m, "A0", ("Y", "R0"))
    i, k, q = var("i"), var("k"), fresh("q")
    l, mm, lm, fs = lm_of(m, m.lm + 1)
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc)), *fs)
    t = I("node_types", i)
    W = app("M.A0_weights", (t, l, q * m.nc + k))
    want = mk_msum([(q, m.nc)], pairs_of(m, i, lambda p: app("R0", (p, l, q)) * app("Y", (p, lm)) * app("M.H0_weights", (I("neigh_types", p) * m.nc + q,))) * W)
    s.says("A0 of an atom is the mixed sum over its pairs", c, s.cell("A0", c, i, lm, k), want)


def f_M0(m):
    s = Fwd(m, "M0", ("A0",))
    i, a, k = var("i"), var("a"), var("k")
    c = s.ctx.assume(*rng((i, m.N), (a, m.nLM), (k, m.nc)))
    want = app("Pv", (ZERO, (I("node_types", i) * m.nLM + a) * m.nc + k, app("A0", (i, Q, k))))
    s.says("M0 of an atom is its polynomial of A0", c, s.cell("M0", c, i, a, k), want)


def f_H1(m):
    s = Fwd(m, "H1", ("M0",))
    i, k, q = var("i"), var("k"), fresh("q")
    l, mm, lm, fs = lm_of(m, m.LM + 1)
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc)), *fs)
    want = mk_msum([(q, m.nc)], app("M0", (i, lm, q)) * app("M.H1_weights", ((l * m.nc + q) * m.nc + k,)))
    s.says("H1 of an atom is the linear map of M0 of its degree", c, s.cell("H1", c, i, lm, k), want)


def f_Phi1(m):
    values.OPAQUE = {}
    try:
        s = Fwd(m, "Phi1", ("H1", "Y", "R1"))
        G = m.get(s.st, "Phi1r").arr
        g, gv = values.ghost_name(G)
        if gv:
            raise Unsupported("contents depend on local variables")
    finally:
        values.OPAQUE = None
    i, k, e, a, b, u, z = var("i"), var("k"), var("e"), var("a"), var("b"), var("u"), fresh("z")
    l1, l2 = I("M.Phi1_l1", e), I("M.Phi1_l2", e)
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc), (e, m.np), (a, 2 * l1 + 1), (b, 2 * l2 + 1)))
    at = (i * m.nle + m.off2(e) + a * (2 * l2 + 1) + b) * m.nc + k
    want = pairs_of(m, i, lambda p: app("R1", (p, e, k)) * app("Y", (p, l1 * l1 + a)) * app("H1", (I("neigh_indices", p), l2 * l2 + b, k)))
    s.says("Phi1r of an atom is the sum over its pairs for every path and (m1,m2)", c, m.dec(G.read(at, c), c), want)
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc), (u, m.nlme)))
    want = mk_msum([(z, m.ncg)], ind(mk_eq(I("M.Phi1_lme", z), u)) * app("M.Phi1_clebsch_gordan", (z,)) * app(g, ((i * m.nle + I("M.Phi1_lelm1lm2", z)) * m.nc + k,)))
    got = m.get(s.st, "Phi1").arr.read(m.at("Phi1", i, u, k), c)
    s.says("Phi1 of an atom is the contraction with the Clebsch-Gordan coefficients", c, m.dec(got, c), want)


def f_A1(m):
    s = Fwd(m, "A1", ("Phi1",))
    i, k, q, h = var("i"), var("k"), fresh("q"), fresh("h")
    l, mm, lm, fs = lm_of(m, m.lm + 1)
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc)), *fs)
    idx = (i * m.nlme + mk_msum([(h, l)], (2 * h + 1) * m.num_e(h)) + mm * m.num_e(l)) * m.nc + q
    want = mk_msum([(q, m.num_e(l) * m.nc)], app("M.Phi1", (idx,)) * app("M.A1_weights", (l, q * m.nc + k)))
    s.says("A1 of an atom is the linear map of the block of Phi1 of its degree", c, s.cell("A1", c, i, lm, k), want)


def f_M1(m):
    s = Fwd(m, "M1", ("A1",))
    i, k = var("i"), var("k")
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc)))
    want = app("Pv", (ONE, I("node_types", i) * m.nc + k, app("A1", (i, Q, k))))
    s.says("M1 of an atom is its polynomial of A1", c, s.cell("M1", c, i, k), want)


def f_H2(m):
    s = Fwd(m, "H2", ("H1", "M1"))
    i, k, q = var("i"), var("k"), fresh("q")
    c = s.ctx.assume(*rng((i, m.N), (k, m.nc)))
    want = mk_msum([(q, m.nc)], app("H1", (i, ZERO, q)) * app("M.H2_weights_for_H1", (I("node_types", i), q * m.nc + k))
                   + app("M1", (i, q)) * app("M.H2_weights_for_M1", (q * m.nc + k,)))
    s.says("H2 of an atom is the linear map of its scalar H1 and M1", c, s.cell("H2", c, i, k), want)


def f_readouts(m):
    s = Fwd(m, "readouts", ("H1", "H2", "node_energies"))
    i, k = var("i"), fresh("k")
    c = s.ctx.assume(*rng((i, m.N)))
    want = app("M.node_energies", (i,)) + app("M.atomic_energies", (I("node_types", i),)) + app("Rv", (app("H2", (i, Q)),)) \
        + mk_msum([(k, m.nc)], app("M.readout_1_weights", (k,)) * app("H1", (i, ZERO, k)))
    s.says("energy of an atom grows by its reference energy and both readouts", c, s.cell("node_energies", c, i), want)


def f_Y(m):
    st = run_Y(m)
    p, l = var("p"), var("l")
    c = st.ctx.assume(*rng((p, m.pairs), (l, m.nlm)))
    x = [app("xyz", (p, P(q))) for q in range(3)]
    want = app("SH", (l, x[2], x[0], x[1]))
    fn = CLS + "::compute_Y"
    m.S.eq("size of Y", st.ctx, m.get(st, "Y").len, m.pairs * m.nlm, fn=fn)
    got = m.read(st, "Y", c, p, l)
    m.S.eq("Y of a pair is 2 sqrt(pi) times the harmonics of (z, x, y)", c, got, 2 * sqrt_(app("pi", (), "R")) * want, fn=fn)


def f_R(m):
    for q in (0, 1):
        radial(m, m.S, q)


def f_scaled(m):
    for q in (0, 1):
        A, name = "A%d" % q, "compute_A%d_scaled" % q
        cells, fn = m.nlm * m.nc, CLS + "::" + name
        i, a = var("i"), var("a")
        for flag in (TRUE, FALSE):
            st = m.start({A: m.N * cells, A + "_scaled": flag})
            m.call(st, name)
            c = st.ctx.assume(*rng((i, m.N), (a, cells)))
            old = app("M." + A, (i * cells + a,))
            m.S.eq("%s divided by the scale factor of its atom" % A if flag is TRUE else "%s unchanged without scaling" % A, c,
                   m.get(st, A).arr.read(i * cells + a, c), old * inv(scale(m, q, i)) if flag is TRUE else old, fn=fn)
            m.frame(st, name, (A,))
            m.S.take(m.ex)


def f_whole(m):
    st_whole(m, forward)


def forward(m, S, st, log, fn, has):
    """the energies of one evaluation: the forward stages in order"""
    tag = " (with ZBL)" if has else ""
    acc = {n: a for n, a in ACCESS.items() if n.startswith("compute_")}
    acc = {n: (a[0], tuple(k for k in a[1] if not k.endswith("_adj"))) for n, a in acc.items()}
    pos = {}
    for k, e in enumerate(log):
        pos.setdefault(e[0], []).append(k)
    once = list(acc) + (["zbl"] if has else [])
    last = pos.get("compute_readouts", [-1])[-1]
    for n in once:
        S.fact("%s is called exactly once%s" % (n, tag), len([k for k in pos.get(n, ()) if k <= last or n == "zbl"]) == 1, fn=fn, kind="postcondition", definite=False)
    if any(len(pos.get(n, ())) != 1 for n in once) or (not has and pos.get("zbl")):
        return
    at = {n: pos[n][0] for n in once}
    same = lambda a, b: a is b or (isinstance(a, VecVal) and isinstance(b, VecVal) and a.arr is b.arr)
    maker = {}
    for n in acc:
        for k in acc[n][1]:
            maker.setdefault(k, []).append(n)
    for n, (reads, writes) in acc.items():
        for k in reads:
            if k == "node_energies":
                continue
            src = maker[k]
            if len(src) == 2:
                src = [src[0] if n == src[1] else src[1]]
            S.fact("%s takes the %s that %s made%s" % (n, k, src[0], tag), at[src[0]] < at[n] and same(log[at[src[0]]][2][k], log[at[n]][1][k]),
                   fn=fn, kind="postcondition", definite=False)
    k = "node_energies"
    first = min(at[n] for n in ("compute_readouts",) + (("zbl",) if has else ()))
    v = log[first][1][k]
    q = var("q")
    c = log[first][4].assume(*rng((q, m.N)))
    S.eq("energies are zero before anything is added%s" % tag, c, m.ex.num(v.arr.read(q, c)), ZERO, fn=fn)
    S.eq("one energy per atom%s" % tag, c, v.len, m.N, fn=fn)
    cur = v
    for e in log:
        if e[0] in ("zbl", "compute_readouts"):
            S.fact("%s adds to the energies left before it%s" % (e[0], tag), same(e[1][k], cur), fn=fn, kind="postcondition", definite=False)
            cur = e[2][k]
    S.fact("the energies returned are those%s" % tag, same(m.get(st, k), cur), fn=fn, kind="postcondition", definite=False)


STAGES_F = dict(A0=f_A0, M0=f_M0, H1=f_H1, Phi1=f_Phi1, A1=f_A1, M1=f_M1, H2=f_H2, readouts=f_readouts, Y=f_Y, R=f_R, scaled=f_scaled, whole=f_whole)


def part(prop, name, S):
    m = Model(S, name)
    S.vacuity("class invariant of MACE (stage %s)" % name, m.ctx.assume(mk_le(ONE, m.N)))
    STAGES_F[name](m)
    S.take(m.ex)


def C26(S):
    for name in STAGES_F:
        part("C26", name, S)


PROPS = {"C26": C26}
