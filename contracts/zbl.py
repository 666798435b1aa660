"""Contracts of the ZBL pair repulsion (C05-C08)."""
from vc.session import *

DBL = ("double",)
INT = ("int", 32, True)
VPRE = Fraction(143996, 10000)
DK = [Fraction(32, 10), Fraction(9423, 10000), Fraction(4028, 10000), Fraction(2016, 10000)]


def env_poly(u, p):
    """cutoff polynomial in u = r/R"""
    return (ONE - (p + 1) * (p + 2) * P(Fraction(1, 2)) * pow_(u, p) + p * (p + 2) * pow_(u, p + 1)
            - p * (p + 1) * P(Fraction(1, 2)) * pow_(u, p + 2))


def denv_poly(u, p):
    """d env / du"""
    return (-(p + 1) * (p + 2) * P(Fraction(1, 2)) * p * pow_(u, p - 1) + p * (p + 2) * (p + 1) * pow_(u, p)
            - p * (p + 1) * P(Fraction(1, 2)) * (p + 2) * pow_(u, p + 1))


class Z:
    def __init__(self, S):
        self.S = S
        prog = self.prog = S.prog("zbl.cpp")
        self.ex = Executor(prog)
        self.a_exp, self.a_pre = app("a_exp", (), "R"), app("a_prefactor", (), "R")
        self.c = make_sym(("vec", DBL), "c", (), prog)
        self.rad = make_sym(("vec", DBL), "radii", (), prog)
        self.p = app("p", (), "I")
        ctx = Ctx([mk_le(P(4), self.c.len), mk_le(P(2), self.rad.len), mk_lt(ZERO, self.a_pre), mk_le(P(2), self.p)])
        self.st = State({}, ctx)
        obj = self.ex.construct("ZBL", [("val", self.a_exp), ("val", self.a_pre), ("val", self.c), ("val", self.rad),
                                        ("val", self.p)], self.st)
        self.root = self.ex.new_root("this", obj, self.st, ("struct", "ZBL"))

    def radius(self, z):
        return app("radii", (z,))

    def energy(self, zu, zv, r, envelope=True):
        """the energy formula (contract of ZBL::compute)"""
        a = self.a_pre * P(Fraction(529, 1000)) * inv(pow_(zu, self.a_exp) + pow_(zv, self.a_exp))
        phi = ZERO
        for k in range(4):
            phi = phi + app("c", (P(k),)) * exp_(-P(DK[k]) * r * inv(a))
        e = P(Fraction(1, 2)) * P(VPRE) * zu * zv * inv(r) * phi
        if not envelope:
            return e
        R = self.radius(zu) + self.radius(zv)
        return e * ite(mk_lt(r, R), env_poly(r * inv(R), self.p), ZERO)

    def call(self, name, args, st):
        s = st.copy()
        s.throws = []
        fn = self.ex.find_function("ZBL::" + name)
        v = self.ex.call_def(fn, (self.root, ()), [("val", a) for a in args], s)
        return s, v

    def pair(self):
        zu, zv, r = app("Zu", (), "I"), app("Zv", (), "I"), var("r", "R")
        st = self.st.copy()
        st.ctx = st.ctx.assume(mk_le(ONE, zu), mk_le(ONE, zv), mk_lt(zu, self.rad.len), mk_lt(zv, self.rad.len), mk_lt(ZERO, r))
        return zu, zv, r, st

    def pure(self, s0, s1, fn):
        a, b = s0.mem[self.root], s1.mem[self.root]
        self.S.fact("%s changes no member" % fn, a is b or all(a.f[q] is b.f[q] for q in a.f), fn=fn, kind="frame", definite=False)
        for _, c, _ in s1.throws:
            self.S.holds("%s does not throw" % fn, c, FALSE, fn=fn)


def C05(S):
    z = Z(S)
    zu, zv, r, st = z.pair()
    R = z.radius(zu) + z.radius(zv)
    fn = "ZBL::compute"
    for what, dom in (("inside", mk_lt(r, R)), ("at or beyond contact", mk_le(R, r))):
        s = st.copy()
        s.ctx = s.ctx.assume(dom)
        S.vacuity("compute " + what, s.ctx)
        s2, v = z.call("compute", [zu, zv, r], s)
        if what == "inside":
            S.eq("compute == screened Coulomb formula * envelope", s2.ctx, v, z.energy(zu, zv, r), fn=fn, ex=z.ex)
        else:
            S.eq("compute == 0 at and beyond the sum of the radii", s2.ctx, v, ZERO, fn=fn, ex=z.ex)
        s3, w = z.call("compute", [zv, zu, r], s)
        S.eq("compute(u,v) == compute(v,u) (%s)" % what, s3.ctx, v, w, fn=fn, ex=z.ex)
        z.pure(s, s2, fn)
    S.take(z.ex)


def C06(S):
    z = Z(S)
    zu, zv, r, st = z.pair()
    R = z.radius(zu) + z.radius(zv)
    ra = r.as_atom()
    d = lambda e: diff(e, lambda a: ONE if a is ra else None)
    s = st.copy()
    s.ctx = s.ctx.assume(mk_lt(r, R))
    S.vacuity("gradient inside", s.ctx)
    s1, e = z.call("compute", [zu, zv, r], s)
    s2, g = z.call("compute_gradient", [zu, zv, r], s)
    S.eq("compute_gradient == d compute / dr", s2.ctx, g, d(simplify(e, s1.ctx)), fn="ZBL::compute_gradient", ex=z.ex)
    z.pure(s, s2, "ZBL::compute_gradient")
    s = st.copy()
    s.ctx = s.ctx.assume(mk_le(R, r))
    s1, e = z.call("compute", [zu, zv, r], s)
    s2, g = z.call("compute_gradient", [zu, zv, r], s)
    S.eq("compute_gradient == 0 at and beyond contact", s2.ctx, g, ZERO, fn="ZBL::compute_gradient", ex=z.ex)
    S.eq("compute == 0 at and beyond contact", s1.ctx, e, ZERO, fn="ZBL::compute", ex=z.ex)
    # envelope
    Rm, q = app("Rmax", (), "R"), app("q", (), "I")
    s = st.copy()
    s.ctx = s.ctx.assume(mk_lt(ZERO, Rm), mk_lt(r, Rm), mk_le(P(2), q))
    S.vacuity("envelope inside", s.ctx)
    s1, e = z.call("compute_envelope", [r, Rm, q], s)
    s2, g = z.call("compute_envelope_gradient", [r, Rm, q], s)
    S.eq("compute_envelope_gradient == d compute_envelope / dr", s2.ctx, g, d(simplify(e, s1.ctx)), fn="ZBL::compute_envelope_gradient", ex=z.ex)
    z.pure(s, s2, "ZBL::compute_envelope_gradient")
    s = st.copy()
    s.ctx = s.ctx.assume(mk_lt(ZERO, Rm), mk_le(Rm, r), mk_le(P(2), q))
    s1, e = z.call("compute_envelope", [r, Rm, q], s)
    s2, g = z.call("compute_envelope_gradient", [r, Rm, q], s)
    S.eq("compute_envelope == 0 at and beyond the cutoff", s1.ctx, e, ZERO, fn="ZBL::compute_envelope", ex=z.ex)
    S.eq("compute_envelope_gradient == 0 at and beyond the cutoff", s2.ctx, g, ZERO, fn="ZBL::compute_envelope_gradient", ex=z.ex)
    S.take(z.ex)


def C07(S):
    z = Z(S)
    fn = "ZBL::compute_envelope"
    R, p, r = app("Rmax", (), "R"), app("q", (), "I"), var("r", "R")
    u = var("u", "R")
    st = z.st.copy()
    st.ctx = st.ctx.assume(mk_lt(ZERO, R), mk_le(P(2), p))
    # r = R*u
    s = st.copy()
    s.ctx = s.ctx.assume(mk_lt(ZERO, u), mk_lt(u, ONE))
    S.vacuity("envelope", s.ctx)
    s1, e = z.call("compute_envelope", [R * u, R, p], s)
    e = simplify(e, s1.ctx)
    S.eq("compute_envelope(R*u) == cutoff polynomial in u on 0<u<1", s1.ctx, e, env_poly(u, p), fn=fn, ex=z.ex)
    z.pure(s, s1, fn)
    ua = u.as_atom()
    d = lambda x: diff(x, lambda a: ONE if a is ua else None)
    de = d(e)
    fac = -p * (p + 1) * (p + 2) * P(Fraction(1, 2)) * pow_(u, p - 1) * (ONE - u) ** 2
    S.eq("d envelope/du == -p(p+1)(p+2)/2 u^(p-1) (1-u)^2", s1.ctx, de, fac, fn=fn, ex=z.ex, kind="lemma")
    # sign of the slope: product of nonnegative factors
    w, y = var("w", "R"), var("y", "R")   # w = u^(p-1) > 0, y = (1-u)^2 >= 0
    c = st.ctx.assume(mk_lt(ZERO, w), mk_le(ZERO, y))
    S.holds("p(p+1)(p+2)/2 >= 0 for p >= 2", c, mk_le(ZERO, p * (p + 1) * (p + 2)), fn=fn, kind="lemma")
    k3 = var("k3", "R")
    c3 = c.assume(mk_le(ZERO, k3))
    S.holds("slope factors nonnegative: k*w*y >= 0", c3, mk_le(ZERO, k3 * w * y), fn=fn, kind="lemma")
    S.holds("u^(p-1) > 0 on 0<u<1", s1.ctx, mk_lt(ZERO, pow_(u, p)), fn=fn, kind="lemma")
    # r = 0
    s = st.copy()
    s2, e0 = z.call("compute_envelope", [ZERO, R, p], s)
    S.eq("compute_envelope(0) == 1", s2.ctx, simplify(e0, s2.ctx), ONE, fn=fn, ex=z.ex)
    # r >= R
    s = st.copy()
    s.ctx = s.ctx.assume(mk_le(R, r))
    s3, eR = z.call("compute_envelope", [r, R, p], s)
    S.eq("compute_envelope == 0 for r >= R", s3.ctx, eR, ZERO, fn=fn, ex=z.ex)
    s3, gR = z.call("compute_envelope_gradient", [r, R, p], s)
    S.eq("compute_envelope_gradient == 0 for r >= R", s3.ctx, gR, ZERO, fn="ZBL::compute_envelope_gradient", ex=z.ex)
    # value, slope and curvature at u -> 1-
    one = {ua: ONE}
    S.eq("value tends to 0 at the cutoff", st.ctx, subst(e, one), ZERO, fn=fn, ex=z.ex)
    S.eq("slope tends to 0 at the cutoff", st.ctx, subst(de, one), ZERO, fn=fn, ex=z.ex)
    S.eq("curvature tends to 0 at the cutoff", st.ctx, subst(d(de), one), ZERO, fn=fn, ex=z.ex)
    S.trusted.add("calculus: a differentiable function with nonpositive slope on (0,1) does not increase there; "
                  "a polynomial is continuous")
    S.take(z.ex)


def C08(S):
    z = Z(S)
    ex, prog = z.ex, z.prog
    S0 = z.st

    def con(sym):
        def f(ex_, st, this, args):
            vals = [a[1] if a[0] == "val" else ex_.read_path(a[1], st) for a in args]
            zu, zv, r = vals
            for q in (zu, zv):
                ex_.oblige("precondition", mk_and(mk_le(ZERO, q), mk_lt(q, z.rad.len)), "0 <= Z < number of radii", st)
            return app(sym, (zu, zv, r))
        return f
    ex.contracts["ZBL::compute"] = con("E")
    ex.contracts["ZBL::compute_gradient"] = con("G")
    rr = var("rr", "R")
    Gform = None

    def unfold(a, ctx):
        if a.args[0] == "E":
            return z.energy(*a.args[1:])
        if a.args[0] == "G":
            ra = rr.as_atom()
            zu, zv, r = a.args[1:]
            R = z.radius(zu) + z.radius(zv)
            g = diff(z.energy(zu, zv, rr, False) * env_poly(rr * inv(R), z.p), lambda x: ONE if x is ra else None)
            return ite(mk_lt(r, R), subst(g, {ra: r}), ZERO)
        return None
    n = app("num_nodes", (), "I")
    names = ["node_types", "num_neigh", "neigh_types", "atomic_numbers", "r", "xyz", "node_energies", "node_forces"]
    ets = [INT, INT, INT, INT, DBL, DBL, DBL, DBL]
    bufs = {nm: make_sym(("vec", et), nm, (), prog) for nm, et in zip(names, ets)}
    v = fresh("i")
    off = lambda t: mk_msum([(v, t)], app("num_neigh", (v,), "I"))
    tot = off(n)
    L = {nm: b.len for nm, b in bufs.items()}
    st = S0.copy()
    ax = st.ctx.axioms
    rng = lambda nm, lo, hi: ax.add(nm, lambda *a: [mk_le(lo, app(nm, a, "I")), mk_lt(app(nm, a, "I"), hi)] if a else [])
    rng("node_types", ZERO, L["atomic_numbers"])
    rng("neigh_types", ZERO, L["atomic_numbers"])
    rng("atomic_numbers", ONE, z.rad.len)
    ax.add("num_neigh", lambda *a: [mk_le(ZERO, app("num_neigh", a, "I"))] if a else [])
    ax.add("r", lambda *a: [mk_lt(ZERO, app("r", a))] if a else [])
    st.ctx = st.ctx.assume(mk_le(ZERO, n), mk_le(n, L["node_types"]), mk_le(n, L["num_neigh"]), mk_le(n, L["node_energies"]),
                           mk_le(tot, L["neigh_types"]), mk_le(tot, L["r"]), mk_le(3 * tot, L["xyz"]), mk_le(3 * tot, L["node_forces"]))
    S.vacuity("compute_ZBL", st.ctx.assume(mk_le(ONE, n)))
    s = st.copy()
    s.throws = []
    roots, args = {}, [("val", n)]
    for nm, et in zip(names, ets):
        roots[nm] = ex.new_root(nm, bufs[nm], s, ("vec", et))
        args.append(("val", SpanVal((roots[nm], ()), ZERO, L[nm])))
    fn = "ZBL::compute_ZBL"
    ex.call_def(ex.find_function(fn), (z.root, ()), args, s)
    for _, c, _ in s.throws:
        S.holds("compute_ZBL does not throw", c, FALSE, fn=fn)
    i, j, k = var("i"), var("j"), var("k")
    zi = app("atomic_numbers", (app("node_types", (i,), "I"),), "I")
    zj = lambda m: app("atomic_numbers", (app("neigh_types", (m,), "I"),), "I")
    c = s.ctx.assume(mk_le(ZERO, i), mk_lt(i, n))
    jj = fresh("j")
    m = off(i) + jj
    e_new = s.mem[roots["node_energies"]].arr.read(i, c)
    spec = app("node_energies", (i,)) + mk_msum([(jj, app("num_neigh", (i,), "I"))], app("E", (zi, zj(m), app("r", (m,)))))
    eq2(S, "node_energies[i] gains the pair energies of i's own neighbours", c, e_new, spec, unfold, fn, ex)
    c2 = s.ctx.assume(mk_le(n, k), mk_lt(k, L["node_energies"]))
    S.eq("node_energies beyond the listed atoms unchanged", c2, s.mem[roots["node_energies"]].arr.read(k, c2),
         app("node_energies", (k,)), fn=fn, ex=ex, kind="frame")
    c3 = c.assume(mk_le(ZERO, j), mk_lt(j, app("num_neigh", (i,), "I")))
    m = off(i) + j
    for q in range(3):
        f_new = s.mem[roots["node_forces"]].arr.read(3 * m + q, c3)
        spec = app("node_forces", (3 * m + q,)) - app("xyz", (3 * m + q,)) * inv(app("r", (m,))) * app("G", (zi, zj(m), app("r", (m,))))
        eq2(S, "node_forces[pair,%d] -= unit vector * pair gradient" % q, c3, f_new, spec, unfold, fn, ex)
    c4 = s.ctx.assume(mk_le(3 * tot, k), mk_lt(k, L["node_forces"]))
    S.eq("node_forces beyond the listed pairs unchanged", c4, s.mem[roots["node_forces"]].arr.read(k, c4),
         app("node_forces", (k,)), fn=fn, ex=ex, kind="frame")
    for nm in ("node_types", "num_neigh", "neigh_types", "atomic_numbers", "r", "xyz"):
        S.fact("%s not written" % nm, s.mem[roots[nm]] is bufs[nm], fn=fn, kind="frame", definite=False)
    S.assumptions.add("spans passed to compute_ZBL do not alias")
    S.take(ex)


def eq2(S, name, ctx, a, b, unfold, fn, ex):
    """contract symbols first; if the code computes the quantity in another way, unfold their definitions"""
    if prove_eq(ctx, a, b):
        S.items.append(Item(name, "postcondition", fn, "discharged"))
        return True
    return S.eq(name, ctx, a, b, unfold=unfold, fn=fn, ex=ex)


PROPS = {"C05": C05, "C06": C06, "C07": C07, "C08": C08}
