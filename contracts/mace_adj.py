"""C18: every reverse stage of the model is the adjoint of its forward stage.

Class invariant Model in full (what load_from_json establishes from a well-formed file; sizes and index ranges assumed).
For each stage the forward code is run on a generic state, its outputs are read as closed expressions of its inputs and
differentiated; then the reverse code is run on the state the forward code left, with arbitrary adjoints, and

    <adj(out), d out> + <adj(in) before, d in>  ==  <adj(in) after, d in> - sum over pairs (force after - before) . dx

is proved for arbitrary variations d in, dx.  Chaining the stages gives dE == - sum force . dx."""
from contracts.mace import *
from contracts.mace import Mace as _Mace
from vc import values
from vc.values import LamArr, Opaque, ConstArr, SymArr, UpdArr, ResizeArr, solve_index
from vc.terms import MSUM_HOOKS, bvar

CONST = {"M." + k for k in "H0_weights A0_weights H1_weights A1_weights H2_weights_for_H1 H2_weights_for_M1 readout_1_weights atomic_energies Phi1_clebsch_gordan".split()}
Q = var("%q")                      # position within a vector argument (lambda-bound in Pv, Pg, Rv, Rg)


class Model(_Mace):
    def __init__(self, S, stage=None):
        self.stage = stage
        MSUM_HOOKS[:] = []
        values.OPAQUE = None
        super().__init__(S, stage)
        f, n, nc, nlm, nLM = self.f, self.n, self.nc, self.nlm, self.nLM
        # l_max + 1 and L_max + 1 are the atomic symbols (radices of the index arithmetic)
        self.lm, self.LM, self.np, self.ncg = var("l1") - 1, var("L1") - 1, var("npath"), var("ncg")
        lm, LM, np_, ncg = self.lm, self.LM, self.np, self.ncg
        f["l_max"], f["L_max"] = lm, LM
        self.nlme, self.nle = var("num_lme"), var("num_lelm1lm2")
        f["num_lme"], f["num_lelm1lm2"] = self.nlme, self.nle

        def size(k, z):
            f[k] = VecVal(z, f[k].arr, f[k].et)

        def rows(k, z, inner):
            b = f[k]
            f[k] = VecVal(z, LamArr(lambda i, b=b: inner(i, b.arr.read(i, None))), b.et)
        size("H0_weights", n * nc)
        rows("A0_weights", n, lambda i, r: VecVal(lm + 1, LamArr(
            lambda l, r=r: VecVal(nc * nc, r.arr.read(l, None).arr, r.et[1] if r.et[0] == "vec" else r.et)), r.et))
        size("P0", n * nLM * nc)
        size("P1", n * nc)
        size("H1_weights", (LM + 1) * nc * nc)
        for k in ("Phi1_l", "Phi1_l1", "Phi1_l2"):
            size(k, np_)
        for k in ("Phi1_lme", "Phi1_lelm1lm2", "Phi1_clebsch_gordan"):
            size(k, ncg)
        rows("A1_weights", lm + 1, lambda l, r: VecVal(self.num_e(l) * nc * nc, r.arr, r.et))
        rows("H2_weights_for_H1", n, lambda l, r: VecVal(nc * nc, r.arr, r.et))
        size("H2_weights_for_M1", nc * nc)
        size("readout_1_weights", nc)
        size("atomic_energies", n)
        ax = self.ctx.axioms

        def rng(nm, hi):
            nm = "M." + nm
            ax.add(nm, lambda *a: [mk_le(ZERO, app(nm, a, "I")), mk_lt(app(nm, a, "I"), hi)] if a else [])
        # lemma: 0 <= l < h implies (l + 1)^2 <= h^2
        z, h = var("z"), var("h")
        self.S.holds("squares are monotone on the non-negative integers", Ctx([mk_le(ZERO, z), mk_lt(z, h)]), mk_le((z + 1) * (z + 1), h * h), kind="lemma")
        for nm, hi in (("Phi1_l1", nlm), ("Phi1_l2", nLM)):
            ax.add("M." + nm, lambda *a, nm=nm, hi=hi: [mk_le((app("M." + nm, a, "I") + 1) * (app("M." + nm, a, "I") + 1), hi)] if a else [])
        rng("Phi1_l", lm + 1)
        rng("Phi1_l1", lm + 1)
        rng("Phi1_l2", LM + 1)
        rng("Phi1_lme", self.nlme)
        rng("Phi1_lelm1lm2", self.nle)
        v = fresh("e")
        self.off2 = lambda t: mk_msum([(v, t)], (2 * app("M.Phi1_l1", (v,), "I") + 1) * (2 * app("M.Phi1_l2", (v,), "I") + 1))
        self.ctx = self.ctx.assume(
            mk_le(ZERO, lm), mk_le(ZERO, LM), mk_le(ZERO, np_), mk_le(ZERO, ncg), mk_eq(nlm, (lm + 1) * (lm + 1)),
            mk_eq(nLM, (LM + 1) * (LM + 1)),
            mk_eq(self.nle, self.off2(np_)), mk_le(ZERO, self.nle),
            mk_eq(self.nspl["M.spl_set_0"], (lm + 1) * nc), mk_eq(self.nspl["M.spl_set_1"], np_ * nc))
        self.ghosts()
        self.shapes = {}
        self.shape("Y")
        self.more_contracts()

    def num_e(self, l):
        """ghost function: number of paths with angular momentum l"""
        return app("num_e", (l,), "I")

    def ghosts(self):
        """names for two sums over the paths:  num_e(l) := #{e : Phi1_l(e) == l},  num_lme := sum (2 Phi1_l(e) + 1)"""
        np_, ax, S = self.np, self.ctx.axioms, self.S
        L = lambda e: app("M.Phi1_l", (e,), "I")
        ax.add("num_e", lambda *a: [mk_le(ZERO, app("num_e", a, "I"))] if a else [])
        e, l, t = fresh("e"), fresh("l"), var("t")
        count = lambda l: mk_msum([(e, np_)], ind(mk_eq(L(e), l)))
        tot = lambda t: mk_msum([(l, t)], (2 * l + 1) * app("num_e", (l,), "I"))
        # lemma (double counting), proved before the names are introduced
        S.eq("sum over l of (2l+1) times the number of paths with l == sum over the paths of 2l+1", self.ctx,
             simplify(mk_msum([(l, self.lm + 1)], (2 * l + 1) * count(l)), self.ctx), mk_msum([(e, np_)], 2 * L(e) + 1), kind="lemma")
        total = mk_msum([(e, np_)], L(e)).as_atom()

        def hook(a):
            if len(a.args[0]) != 1 or a.args[0][0][1] is not np_:
                return None
            if a is total:
                return (self.nlme - np_) * P(Fraction(1, 2))
            b = a.args[1].as_atom()
            if b is None or b.kind != "ind" or b.args[0].kind != "eq0":
                return None
            v = bvar(a.args[0][0][0])
            p = b.args[0].args[0]
            for s in (1, -1):
                x = L(P(v)) - s * p
                if v not in x.fv:
                    return app("num_e", (x,), "I")
            return None
        MSUM_HOOKS[:] = [hook]
        self.ctx = self.ctx.assume(mk_eq(self.nlme, tot(self.lm + 1)), mk_le(ZERO, self.nlme))

    def more_contracts(self):
        ex = self.ex

        def val(a, st):
            return a[1] if a[0] == "val" else ex.read_path(a[1], st)

        def poly(ex_, st, this, args):
            root, sel = this
            names = [s[1] for s in sel if s[0] == "f"]
            idx = [s[1] for s in sel if s[0] == "i"]
            if len(names) != 1 or len(idx) != 1 or names[0] not in ("P0", "P1"):
                raise Unsupported("polynomial is not an element of P0 or P1: %r" % (sel,))
            x = val(args[0], st)
            if isinstance(x, SpanVal):
                b = ex_.read_path(x.path, st)
                x = VecVal(x.len, LamArr(lambda k: b.arr.read(x.off + k, st.ctx)), b.et)
            ex_.oblige("precondition", mk_eq(x.len, self.nlm), "evaluate_gradient: one entry per variable", st)
            w = P(int(names[0][1]))
            e = self.content(x, st.ctx, self.nlm)
            g = VecVal(self.nlm, LamArr(lambda k: app("Pg", (w, idx[0], e, k)), ()), DBL)
            p = fresh("p")
            g = VecVal(self.nlm, UpdArr(SymArr("unspecified!", (), DBL, self.prog), [(p, self.nlm)], TRUE, p, app("Pg", (w, idx[0], e, p))), DBL)
            return StructVal("tuple", {"0": app("Pv", (w, idx[0], e)), "1": g})

        def mlp(ex_, st, this, args):
            x = val(args[0], st)
            if isinstance(x, SpanVal):
                b = ex_.read_path(x.path, st)
                x = VecVal(x.len, LamArr(lambda k: b.arr.read(x.off + k, st.ctx)), b.et)
            ex_.oblige("precondition", mk_eq(x.len, self.nc), "evaluate_gradient: one entry per input", st)
            e = self.content(x, st.ctx, self.nc)
            p, q = fresh("p"), fresh("p")
            un = SymArr("unspecified!", (), DBL, self.prog)
            return StructVal("tuple", {"0": VecVal(ONE, UpdArr(un, [(q, ONE)], TRUE, q, app("Rv", (e,))), DBL),
                                       "1": VecVal(self.nc, UpdArr(un, [(p, self.nc)], TRUE, p, app("Rg", (e, p))), DBL)})
        ex.contracts["MultivariatePolynomial::evaluate_gradient"] = poly
        ex.contracts["MultilayerPerceptron::evaluate_gradient"] = mlp
        self.S.trusted.add("contracts of MultivariatePolynomial::evaluate_gradient (C14) and MultilayerPerceptron::evaluate_gradient (C10)")

    # ---- variations
    def dx(self, p, x):
        return app("dx", (p, P(x)))

    def tangent(self, inputs):
        """derivative of a leaf: inputs maps a field to its variation symbol"""
        nlm = self.nlm
        self.used = set()

        def cell(a):
            if a.kind != "app":
                return None
            nm, args = a.args[0], a.args[1:]
            if nm in ("Pv", "Rv"):
                e = args[-1]
                g = "Pg" if nm == "Pv" else "Rg"
                hi = nlm if nm == "Pv" else self.nc
                v = fresh("q")
                de = subst(diff(e, cell), {Q.as_atom(): v})
                return mk_msum([(v, hi)], app(g, args + (v,)) * de)
            if nm == "Sc":
                q, k, r = args
                return app("Sc'", args) * diff(r, cell)
            if nm == "r":
                return self.dr(args[0])
            if nm in ("R0", "R1"):
                return app("%s_deriv" % nm, args) * self.dr(args[0])
            if nm == "Y":
                return sum((app("Y_grad", (args[0], P(x), args[1])) * self.dx(args[0], x) for x in range(3)), ZERO)
            if nm in inputs:
                return app("d" + nm, args)
            if nm in CONST:
                return None
            if a.sort == "I":
                return None
            raise Unsupported("the forward stage reads %s" % a)
        return cell

    def dr(self, p):
        return sum((app("xyz", (p, P(x))) * self.dx(p, x) for x in range(3)), ZERO) * inv(app("r", (p,)))

    # ---- structured indices: the cell (a*n1+b)*n2+c of an array of shape (n0,n1,n2) is written name(a,b,c)
    def begin(self, *fields, **more):
        """a state in which the listed fields hold arbitrary values of the size their shape gives"""
        d = {}
        for k in fields:
            n = ONE
            for z in self.shape(k):
                n = n * z
            d[k] = n
        d.update(more)
        return self.start(d)

    def decode(self, a, ctx):
        nm, args = a.args[0], a.args[1:]
        if values.OPAQUE and nm in values.OPAQUE:
            return values.ghost_unfold(a, ctx)
        if len(args) != 1 or not (nm.startswith("M.") or nm == "xyz"):
            return None
        k = nm[2:] if nm != "xyz" else nm
        sh = self.shapes.get(k)
        if sh is None or len(sh[1]) == 1:
            return None
        k0 = subst(args[0], {self.nspl["M.spl_set_0"].as_atom(): (self.lm + 1) * self.nc, self.nspl["M.spl_set_1"].as_atom(): self.np * self.nc})
        hit = solve_index(sh[0], sh[1], k0, ctx)
        return None if hit is None else app(k, tuple(hit), a.sort)

    def dec(self, p, ctx):
        return simplify(self.ex.num(p), ctx, self.decode)

    def content(self, x, ctx, n):
        """the content of a vector as a function of Q"""
        c = ctx.assume(mk_le(ZERO, Q), mk_lt(Q, n))
        return self.dec(x.arr.read(Q, c), c)

    def shape(self, key):
        N, tot, nc, nlm, nLM = self.N, self.pairs, self.nc, self.nlm, self.nLM
        if self.shapes:
            return self.dims[key]
        t = self.dims = {"Y": (tot, nlm), "Y_grad": (tot, P(3), nlm), "R0": (tot, self.lm + 1, nc), "R1": (tot, self.np, nc),
             "A0": (N, nlm, nc), "A1": (N, nlm, nc), "M0": (N, nLM, nc), "H1": (self.NH, nLM, nc), "M1": (N, nc), "H2": (N, nc),
             "Phi1": (N, self.nlme, nc), "Phi1r": (N, self.nle, nc), "node_forces": (tot, P(3)), "node_energies": (N,),
             "xyz": (tot, P(3))}
        for k in list(t):
            if k[0] in "RY" and "_" not in k:
                t[k + "_deriv"] = t[k]
            t["d" + k if k.startswith("Phi") else k + "_adj"] = t[k]
        if self.stage == "H1":            # compute_H1 makes as many rows as there are nodes
            t["H1"] = (N, nLM, nc)
        for k in t:
            vs = [fresh("u") for _ in t[k]]
            idx = ZERO
            for v, d in zip(vs, t[k]):
                idx = idx * d + v
            self.shapes[k] = (idx, tuple(zip(vs, t[k])))
        return t[key]

    def at(self, k, *ix):
        """flat index"""
        r = ZERO
        for d, i in zip(self.shape(k), ix):
            r = r * d + i
        return r

    def read(self, st, k, ctx, *ix):
        return self.dec(self.get(st, k).arr.read(self.at(k, *ix), ctx), ctx)



def rng(*ps):
    fs = []
    for v, h in ps:
        fs += [mk_le(ZERO, v), mk_lt(v, h)]
    return fs


def split_sum(a, n, rest, f):
    """sum over a < n of f(a): the first term apart from the others (n >= 1)"""
    b = fresh("a")
    return mk_msum(rest, f(ZERO, [])) + mk_msum([(b, n - 1)] + rest, f(b + 1, rng((b, n - 1))))


READS = {}


class Stage:
    """forward and reverse code of one stage on one generic state"""

    KEEP = {"M0": ("M0_grad",), "M1": ("M1_grad",), "Phi1": ("Phi1r",), "A0_scaled": ("A0",), "A1_scaled": ("A1",)}

    def __init__(self, m, name, fields, inputs, flags=None, **more):
        self.m, self.S, self.name = m, m.S, name
        self.fn = CLS + "::reverse_" + name
        READS["compute_" + name] = READS["reverse_" + name] = tuple(fields) + self.KEEP.get(name, ())
        st = self.st = m.begin(*fields, **more)
        m.call(st, "compute_" + name)
        self.fwd = dict(st.mem[m.root].f)
        m.frame(st, "compute_" + name, self.WRITES["compute_" + name])
        self.sizes("compute_" + name)
        # outputs the reverse code is not meant to read: arbitrary from here on (later stages may have changed them)
        for k in self.WRITES["compute_" + name]:
            if k not in self.KEEP.get(name, ()) and k not in fields:
                v = m.get(st, k)
                st.mem[m.root] = st.mem[m.root].with_(k, VecVal(v.len, SymArr("later.M." + k, (), v.et, m.prog), v.et))
        self.cell = m.tangent(inputs)
        m.S.take(m.ex)
        self.flags = flags

    WRITES = {"compute_A0": ("A0",), "reverse_A0": ("node_forces",),
              "compute_M0": ("M0", "M0_grad"), "reverse_M0": ("A0_adj",),
              "compute_H1": ("H1",), "reverse_H1": ("M0_adj",),
              "compute_Phi1": ("Phi1r", "Phi1"), "reverse_Phi1": ("dPhi1r", "node_forces", "H1_adj"),
              "compute_A1": ("A1",), "reverse_A1": ("dPhi1",),
              "compute_A0_scaled": ("A0",), "reverse_A0_scaled": ("A0_adj", "node_forces"),
              "compute_A1_scaled": ("A1",), "reverse_A1_scaled": ("A1_adj", "node_forces"),
              "compute_M1": ("M1", "M1_grad"), "reverse_M1": ("A1_adj",),
              "compute_H2": ("H2",), "reverse_H2": ("H1_adj", "M1_adj"),
              "compute_readouts": ("node_energies", "H1_adj", "H2_adj")}

    def sizes(self, name):
        m = self.m
        for k in self.WRITES[name]:
            if k in m.dims:
                n = ONE
                for z in m.shape(k):
                    n = n * z
                self.S.eq("size of %s after %s" % (k, name), self.st.ctx, m.get(self.st, k).len, n, fn=CLS + "::" + name)

    def back(self):
        m, st = self.m, self.st
        mid = m.f0
        m.f0 = dict(st.mem[m.root].f)
        m.call(st, "reverse_" + self.name, self.flags)
        m.frame(st, "reverse_" + self.name, self.WRITES["reverse_" + self.name])
        self.sizes("reverse_" + self.name)
        m.f0 = mid
        self.S.take(m.ex)

    def dout(self, k, ctx, *ix):
        """variation of an output cell"""
        m = self.m
        v = m.dec(self.fwd[k].arr.read(m.at(k, *ix), ctx), ctx)
        return diff(v, self.cell)

    def new(self, k, ctx, *ix):
        return self.m.read(self.st, k, ctx, *ix)

    def forces(self, ctx, i):
        """- sum over the pairs of atom i of (force after - force before) . dx"""
        m = self.m
        j = fresh("j")
        c = ctx.assume(*rng((j, app("num_neigh", (i,), "I"))))
        p = m.off(i) + j
        s = ZERO
        for x in range(3):
            s = s - (self.new("node_forces", c, p, P(x)) - app("node_forces", (p, P(x)))) * m.dx(p, x)
        return mk_msum([(j, app("num_neigh", (i,), "I"))], s)

    def pair(self, what, ctx, a, b):
        self.S.eq("adjoint of %s: %s" % (self.name, what), ctx, a, b, fn=self.fn)


def lm_sum(binders, l1, f):
    """sum over all (l, m) with l < l1, m <= 2l, given further binders"""
    l, mm = fresh("l"), fresh("m")
    fs = rng((l, l1), (mm, 2 * l + 1), *binders)
    return mk_msum([(l, l1), (mm, 2 * l + 1)] + list(binders), f(l, mm, fs))


def st_A0(m):
    s = Stage(m, "A0", ("Y", "R0", "R0_deriv", "Y_grad", "A0_adj", "node_forces"), ())
    s.back()
    i, k = var("i"), fresh("k")
    c = s.st.ctx.assume(*rng((i, m.N)))
    lhs = lm_sum([(k, m.nc)], m.lm + 1, lambda l, mm, fs:
                 app("A0_adj", (i, l * l + mm, k)) * s.dout("A0", c.assume(*fs), i, l * l + mm, k))
    s.pair("forces of the pairs of an atom", c, lhs, s.forces(c, i))


def st_H1(m):
    s = Stage(m, "H1", ("M0", "H1_adj"), ("M0",))
    s.back()
    i, k = var("i"), fresh("k")
    c = s.st.ctx.assume(*rng((i, m.N)))
    L1 = m.LM + 1
    lhs = lm_sum([(k, m.nc)], L1, lambda l, mm, fs: app("H1_adj", (i, l * l + mm, k)) * s.dout("H1", c.assume(*fs), i, l * l + mm, k))
    rhs = lm_sum([(k, m.nc)], L1, lambda l, mm, fs: s.new("M0_adj", c.assume(*fs), i, l * l + mm, k) * app("dM0", (i, l * l + mm, k)))
    s.pair("M0_adj of an atom", c, lhs, rhs)


def st_M0(m):
    s = Stage(m, "M0", ("A0", "M0_adj"), ("A0",))
    s.back()
    i, k, a, b = var("i"), fresh("k"), fresh("a"), fresh("b")
    c = s.st.ctx.assume(*rng((i, m.N)))
    lhs = mk_msum([(a, m.nLM), (k, m.nc)], app("M0_adj", (i, a, k)) * s.dout("M0", c.assume(*rng((a, m.nLM), (k, m.nc))), i, a, k))
    rhs = mk_msum([(b, m.nlm), (k, m.nc)], s.new("A0_adj", c.assume(*rng((b, m.nlm), (k, m.nc))), i, b, k) * app("dA0", (i, b, k)))
    s.pair("A0_adj of an atom", c, lhs, rhs)


def st_M1(m):
    s = Stage(m, "M1", ("A1", "M1_adj"), ("A1",))
    s.back()
    i, k, b = var("i"), fresh("k"), fresh("b")
    c = s.st.ctx.assume(*rng((i, m.N)))
    lhs = mk_msum([(k, m.nc)], app("M1_adj", (i, k)) * s.dout("M1", c.assume(*rng((k, m.nc))), i, k))
    rhs = mk_msum([(b, m.nlm), (k, m.nc)], s.new("A1_adj", c.assume(*rng((b, m.nlm), (k, m.nc))), i, b, k) * app("dA1", (i, b, k)))
    s.pair("A1_adj of an atom", c, lhs, rhs)


def st_H2(m):
    for zero in (FALSE, TRUE):
        s = Stage(m, "H2", ("H1", "M1", "H1_adj", "H2_adj"), ("H1", "M1"), {"zero_H1_adj": zero})
        s.back()
        i, k, a = var("i"), fresh("k"), fresh("a")
        c = s.st.ctx.assume(*rng((i, m.N)))
        ck = c.assume(*rng((k, m.nc)))
        lhs = mk_msum([(k, m.nc)], app("H2_adj", (i, k)) * s.dout("H2", ck, i, k))
        old = lambda a: app("H1_adj", (i, a, k)) if zero is FALSE else ZERO
        rhs = mk_msum([(k, m.nc)], s.new("M1_adj", ck, i, k) * app("dM1", (i, k)))
        rhs = rhs + split_sum(a, m.nLM, [(k, m.nc)], lambda a, fs: (s.new("H1_adj", ck.assume(*fs), i, a, k) - old(a)) * app("dH1", (i, a, k)))
        s.pair("H1_adj (added to) and M1_adj of an atom", c, lhs, rhs)
        b, k2 = fresh("b"), fresh("k")
        cz = s.st.ctx.assume(*rng((i, m.NH - m.N), (b, m.nLM), (k2, m.nc)))
        m.S.eq("reverse_H2 leaves the rows of further atoms in H1_adj%s" % (" (zeroed)" if zero is TRUE else ""), cz, s.new("H1_adj", cz, m.N + i, b, k2),
               ZERO if zero is TRUE else app("H1_adj", (m.N + i, b, k2)), fn=s.fn)


def st_readouts(m):
    st = m.begin("H1", "H2", "node_energies")
    fn = CLS + "::compute_readouts"
    m.call(st, "compute_readouts")
    m.frame(st, "compute_readouts", Stage.WRITES["compute_readouts"])
    m.S.take(m.ex)
    i, k, a = var("i"), fresh("k"), fresh("a")
    c = st.ctx.assume(*rng((i, m.N)))
    e = m.read(st, "node_energies", c, i) - app("M.node_energies", (i,))
    d = diff(e, m.tangent(("H1", "H2")))
    ck = c.assume(*rng((k, m.nc)))
    rhs = mk_msum([(k, m.nc)], m.read(st, "H2_adj", ck, i, k) * app("dH2", (i, k)))
    rhs = rhs + split_sum(a, m.nLM, [(k, m.nc)], lambda a, fs: m.read(st, "H1_adj", ck.assume(*fs), i, a, k) * app("dH1", (i, a, k)))
    cz = st.ctx.assume(*rng((i, m.NH - m.N), (a, m.nLM), (k, m.nc)))
    m.S.eq("H1_adj has the size of H1 after compute_readouts", st.ctx, m.get(st, "H1_adj").len, m.get(st, "H1").len, fn=fn)
    m.S.eq("H1_adj is zero after compute_readouts in the rows of further atoms", cz, m.read(st, "H1_adj", cz, m.N + i, a, k), ZERO, fn=fn)
    m.S.eq("adjoint of readouts: H1_adj and H2_adj are the derivatives of the energy added to an atom", c, d, rhs, fn=fn)


def st_A1(m):
    """the cells of Phi1 of an atom are the entries of one matrix per l, (2l+1) rows of num_e(l)*num_channels, one after the
    other; sum over l of (2l+1)*num_e(l) == num_lme, so every cell is met once"""
    s = Stage(m, "A1", ("Phi1", "A1_adj"), ("M.Phi1",))
    s.back()
    i, k, q = var("i"), fresh("k"), fresh("q")
    c = s.st.ctx.assume(*rng((i, m.N)))
    lhs = lm_sum([(k, m.nc)], m.lm + 1, lambda l, mm, fs: app("A1_adj", (i, l * l + mm, k)) * s.dout("A1", c.assume(*fs), i, l * l + mm, k))

    def cells(l, mm, fs):
        h = fresh("l")
        idx = (i * m.nlme + mk_msum([(h, l)], (2 * h + 1) * m.num_e(h)) + mm * m.num_e(l)) * m.nc + q
        cc = c.assume(*fs).assume(*rng((q, m.num_e(l) * m.nc)))
        return mk_msum([(q, m.num_e(l) * m.nc)], m.dec(m.get(s.st, "dPhi1").arr.read(idx, cc), cc) * app("dM.Phi1", (idx,)))
    s.pair("dPhi1 of an atom", c, lhs, lm_sum([], m.lm + 1, cells))


def paired(m, arr, f, ctx, n):
    """sum over the n cells c of arr[c] * f(c), for an array built by families of writes (all cells in range: bounds
    obligations): the sum contributed by the families, and the array they are applied to"""
    r = ZERO
    while not isinstance(arr, (ConstArr, SymArr)):
        if isinstance(arr, ResizeArr):
            if not ctx.prove(mk_le(n, arr.n)):
                raise Unsupported("resized array")
            arr = arr.base
            continue
        if not isinstance(arr, UpdArr):
            raise Unsupported("array %r" % type(arr))
        c = arr.pctx(ctx)
        v = arr.val
        if arr.mode == "set":
            v = v - arr.base.read(arr.idx, c)
        r = r + mk_msum(list(arr.params), ind(arr.guard) * m.dec(v, c) * f(simplify(arr.idx, c), c))
        arr = arr.base
    return r, arr


def d_family(m, arr, cell, ctx):
    """the derivative of an array built by one family over the constant 0"""
    if not (isinstance(arr, UpdArr) and isinstance(arr.base, ConstArr) and arr.base.val.is_zero()):
        raise Unsupported("derivative of %r" % arr)
    return UpdArr(arr.base, arr.params, arr.guard, arr.idx, diff(m.dec(arr.val, arr.pctx(ctx)), cell), arr.mode)


def st_Phi1(m, flags=(FALSE,)):
    """Phi1r is the pairs' part, Phi1 a linear map of Phi1r.  With G, D the contents of Phi1r, dPhi1r (ghost functions):
    <dPhi1, d Phi1> == <D, dG>   and   <D, d Phi1r> + <H1_adj before, dH1> == <H1_adj after, dH1> - sum (force after - before).dx"""
    for zero in flags:
        values.OPAQUE = {}
        try:
            s = Stage(m, "Phi1", ("H1", "Y", "R1", "Y_grad", "R1_deriv", "dPhi1", "H1_adj", "node_forces"), ("H1",),
                      dict(zero_dxyz=zero, zero_H1_adj=zero))
            G = s.fwd["Phi1r"].arr
            s.back()
            ctx = s.st.ctx
            D = m.get(s.st, "dPhi1r").arr
            (g, gv), (d, dv) = values.ghost_name(G), values.ghost_name(D)
            if gv or dv:
                raise Unsupported("contents depend on local variables")
        finally:
            values.OPAQUE = None
        size = {}
        for k in ("Phi1", "Phi1r", "H1", "node_forces"):
            size[k] = ONE
            for z in m.shape(k):
                size[k] = size[k] * z
        flat = lambda nm: lambda idx, c: app(nm, (idx,))

        def at(k, nm):
            def f(idx, c):
                hit = solve_index(m.shapes[k][0], m.shapes[k][1], idx, c)
                if hit is None:
                    raise Unsupported("cell %s of %s" % (idx, k))
                return app(nm, tuple(hit))
            return f
        lin = lambda a: app("dG", a.args[1:]) if a.kind == "app" and a.args[0] == g else s.cell(a)
        one, b1 = paired(m, d_family(m, s.fwd["Phi1"].arr, lin, ctx), at("Phi1", "dPhi1"), ctx, size["Phi1"])
        two, b2 = paired(m, D, flat("dG"), ctx, size["Phi1r"])
        s.pair("dPhi1r is the adjoint of the contraction with the Clebsch-Gordan coefficients", ctx, one, two)
        lhs, b3 = paired(m, d_family(m, G, s.cell, ctx), flat(d), ctx, size["Phi1r"])
        hh, b4 = paired(m, m.get(s.st, "H1_adj").arr, at("H1", "dH1"), ctx, size["H1"])
        ff, b5 = paired(m, m.get(s.st, "node_forces").arr, at("node_forces", "dx"), ctx, size["node_forces"])
        bases = [(b1, None), (b2, None), (b3, None), (b4, "H1_adj"), (b5, "node_forces")]
        for b, nm in bases:
            if nm is None or zero is TRUE:
                ok = isinstance(b, ConstArr) and b.val.is_zero()
            else:
                ok = isinstance(b, SymArr) and b.name == "M." + nm
            if not ok:
                raise Unsupported("an accumulated array starts from %r" % (b,))
        s.pair("forces of the pairs and H1_adj of their neighbours", ctx, lhs, hh - ff)


def st_scaled(m, q):
    A = "A%d" % q
    cells = m.nlm * m.nc
    for flag in (TRUE, FALSE):
        s = Stage(m, A + "_scaled", (A, A + "_adj", "node_forces"), ("M." + A,), {"zero_dxyz": FALSE}, **{A + "_scaled": flag})
        s.back()
        i, a = var("i"), fresh("a")
        c = s.st.ctx.assume(*rng((i, m.N)))
        ca = c.assume(*rng((a, cells)))
        at = i * cells + a
        plain = lambda v: simplify(v, ca, lambda x, c2: m.decode(x, c2) if x.args[0] == "xyz" else None)
        lhs = mk_msum([(a, cells)], app("M.%s_adj" % A, (at,)) * diff(plain(s.fwd[A].arr.read(at, ca)), s.cell))
        rhs = mk_msum([(a, cells)], plain(m.get(s.st, A + "_adj").arr.read(at, ca)) * app("dM." + A, (at,))) + s.forces(c, i)
        s.pair("%s_adj and forces of the pairs of an atom%s" % (A, "" if flag is TRUE else " (no scaling)"), c, lhs, rhs)


def run_Y(m):
    """sphericart: for each vector v, sph[lm] = SH(lm, v) and dsph[a][lm] = derivative of SH(lm, v) with respect to v[a]"""
    ex, S = m.ex, m.S

    def sph(ex_, st, this, args):
        lens, vals = [], []
        for k, a in enumerate(args):
            if a[0] == "val":
                raise Unsupported("argument of compute_with_gradients")
            v = ex_.read_path(a[1], st)
            if not isinstance(v, VecVal):
                raise Unsupported("argument of compute_with_gradients")
            vals.append((a[1], v))
        (_, x), (py, y), (pg, g) = vals
        t, a, l = fresh("t"), fresh("a"), fresh("l")
        n = m.pairs
        ex_.oblige("precondition", mk_eq(x.len, 3 * n), "compute_with_gradients: three coordinates per vector", st)
        ex_.oblige("precondition", mk_eq(y.len, n * m.nlm), "compute_with_gradients: size of sph", st)
        ex_.oblige("precondition", mk_eq(g.len, 3 * n * m.nlm), "compute_with_gradients: size of dsph", st)
        vec = lambda t, c: tuple(simplify(x.arr.read(3 * t + k, c), c) for k in range(3))
        c = st.ctx.assume(*rng((t, n), (l, m.nlm)))
        un = SymArr("unspecified!", (), DBL, m.prog)
        ya = UpdArr(un, [(t, n), (l, m.nlm)], TRUE, t * m.nlm + l, app("SH", (l,) + vec(t, c)))
        ga = UpdArr(un, [(t, n), (a, P(3)), (l, m.nlm)], TRUE, (3 * t + a) * m.nlm + l, app("SHg", (a, l) + vec(t, c)))
        ex_.write_path(py, VecVal(y.len, ya, y.et), st)
        ex_.write_path(pg, VecVal(g.len, ga, g.et), st)
        return None
    def ctor(ex_, st, vs):
        ex_.oblige("precondition", mk_eq(vs[0], m.lm), "SphericalHarmonics: maximal degree l_max", st)
        return Opaque("sphericart object")
    ex.contracts["ctor:sphericart::SphericalHarmonics<double>"] = ctor
    ex.contracts["sphericart::SphericalHarmonics<double>::compute_with_gradients"] = sph
    S.trusted.add("sphericart: compute_with_gradients returns functions of each vector and their derivatives, memory layout [vector][3][lm]")
    values.OPAQUE = {}
    st = m.begin()
    st.ctx = st.ctx.assume(mk_le(ONE, m.pairs))
    m.call(st, "compute_Y")
    m.frame(st, "compute_Y", ("Y", "Y_grad", "xyz_shuffled"))
    S.take(ex)
    return st


def st_Y(m):
    S, fn = m.S, CLS + "::compute_Y"
    st = run_Y(m)
    p, l = var("p"), var("l")
    c = st.ctx.assume(*rng((p, m.pairs), (l, m.nlm)))

    def cell(a):
        if a.kind != "app":
            return None
        if a.args[0] == "SH":
            l_, v = a.args[1], a.args[2:]
            return sum((app("SHg", (P(k), l_) + v) * diff(v[k], cell) for k in range(3)), ZERO)
        if a.args[0] == "xyz":
            return app("dx", a.args[1:])
        if a.args[0] == "pi" or a.sort == "I":
            return None
        raise Unsupported("compute_Y reads %s" % a)
    for k, n in (("Y", m.pairs * m.nlm), ("Y_grad", 3 * m.pairs * m.nlm)):
        S.eq("size of %s" % k, st.ctx, m.get(st, k).len, n, fn=fn)
    d = diff(m.read(st, "Y", c, p, l), cell)
    S.eq("Y_grad is the gradient of Y", c, d, sum((m.read(st, "Y_grad", c, p, P(x), l) * m.dx(p, x) for x in range(3)), ZERO), fn=fn)


def st_R(m):
    for q in (0, 1):
        radial(m, m.S, q)


# ---- the whole evaluation: the stage contracts, chained
# fields a stage reads (the states its contract was proved on give no other field a size) and writes
ACCESS = {
    "compute_Y": ((), ("Y", "Y_grad", "xyz_shuffled")),
    "compute_R0": ((), ("R0", "R0_deriv")), "compute_R1": ((), ("R1", "R1_deriv")),
    "compute_A0": (("Y", "R0"), ("A0",)), "compute_A0_scaled": (("A0",), ("A0",)), "compute_M0": (("A0",), ("M0", "M0_grad")),
    "compute_H1": (("M0",), ("H1",)), "compute_Phi1": (("H1", "Y", "R1"), ("Phi1r", "Phi1")), "compute_A1": (("Phi1",), ("A1",)),
    "compute_A1_scaled": (("A1",), ("A1",)), "compute_M1": (("A1",), ("M1", "M1_grad")), "compute_H2": (("H1", "M1"), ("H2",)),
    "compute_readouts": (("H1", "H2", "node_energies"), ("node_energies", "H1_adj", "H2_adj")),
    "reverse_H2": (("H1_adj", "H2_adj"), ("H1_adj", "M1_adj")), "reverse_M1": (("M1_grad", "M1_adj"), ("A1_adj",)),
    "reverse_A1_scaled": (("A1", "A1_adj", "node_forces"), ("A1_adj", "node_forces")), "reverse_A1": (("A1_adj",), ("dPhi1",)),
    "reverse_Phi1": (("H1", "Y", "R1", "Y_grad", "R1_deriv", "Phi1r", "dPhi1", "H1_adj", "node_forces"), ("dPhi1r", "node_forces", "H1_adj")),
    "reverse_H1": (("H1_adj",), ("M0_adj",)), "reverse_M0": (("M0_grad", "M0_adj"), ("A0_adj",)),
    "reverse_A0_scaled": (("A0", "A0_adj", "node_forces"), ("A0_adj", "node_forces")),
    "reverse_A0": (("Y", "R0", "Y_grad", "R0_deriv", "A0_adj", "node_forces"), ("node_forces",)),
}
ADJ = {"Phi1": "dPhi1", "H1": "H1_adj", "H2": "H2_adj", "M0": "M0_adj", "M1": "M1_adj", "A0": "A0_adj", "A1": "A1_adj"}
# stage -> (output field, input fields): identity <adj out, d out> + <adj in before, d in> == <adj in after, d in> - forces
CHAIN = {"H2": ("H2", ("M1", "H1")), "M1": ("M1", ("A1",)), "A1_scaled": ("A1", ("A1",)), "A1": ("A1", ("Phi1",)),
         "Phi1": ("Phi1", ("H1",)), "H1": ("H1", ("M0",)), "M0": ("M0", ("A0",)), "A0_scaled": ("A0", ("A0",)), "A0": ("A0", ())}
ADDS = {("H2", "H1"), ("Phi1", "H1")}         # the adjoint of the input is added to, not set


def st_whole(m, links=None):
    links = links or chain
    S, ex = m.S, m.ex
    fn = CLS + "::compute_node_energies_forces"
    log = []

    def version(st, k):
        return m.get(st, k)

    def stage(name):
        def con(ex_, st, this, args):
            if this[0] is not m.root or this[1]:
                raise Unsupported("stage of another object")
            f = ex_.find_function(CLS + "::" + name)
            before = dict(st.mem[m.root].f)
            flags = {}
            for prm, a in zip(ex_.params(f), args):
                nm = prm.get("name")
                v = a[1] if a[0] == "val" else ex_.read_path(a[1], st)
                if nm in m.spans:
                    w = m.spans[nm]
                    if isinstance(v, SpanVal) and v.path == w.path:
                        ok = mk_and(mk_eq(v.off, w.off), mk_eq(v.len, w.len))
                    else:
                        ok = FALSE
                    ex_.oblige("precondition", ok, "%s is given the caller's %s" % (name, nm), st)
                elif nm == "num_nodes":
                    ex_.oblige("precondition", mk_eq(v, m.N), "%s is given the number of atoms" % name, st)
                else:
                    flags[nm] = v
            new = st.mem[m.root]
            for k in ACCESS[name][1]:
                old = new.f[k]
                n = old.len
                if k in m.dims:
                    n = ONE
                    for z in m.shape(k):
                        n = n * z
                new = new.with_(k, VecVal(n, SymArr("%s.%s#%d" % (name, k, len(log)), (), old.et, m.prog), old.et))
            st.mem[m.root] = new
            log.append((name, before, dict(new.f), flags, st.ctx))
            return None
        return con
    for name in ACCESS:
        ex.contracts[CLS + "::" + name] = stage(name)

    def zbl(ex_, st, this, args):
        if this != (m.root, (("f", "zbl"),)):
            raise Unsupported("ZBL object")
        fs = [d for d in ex_.prog.decls.values() if d.get("_qual") == "ZBL::compute_ZBL"]
        if not fs:
            raise Unsupported("ZBL::compute_ZBL not declared")
        f = fs[0]
        before = dict(st.mem[m.root].f)
        want = {}
        for prm, a in zip(ex_.params(f), args):
            want[prm.get("name")] = a
        for nm in ("node_types", "num_neigh", "neigh_types", "xyz", "r"):
            a = want.get(nm)
            v = None if a is None else (a[1] if a[0] == "val" else ex_.read_path(a[1], st))
            w = m.spans[nm]
            ok = mk_and(mk_eq(v.off, w.off), mk_eq(v.len, w.len)) if isinstance(v, SpanVal) and v.path == w.path else FALSE
            ex_.oblige("precondition", ok, "compute_ZBL is given the caller's %s" % nm, st)
        for nm, k in (("node_energies", "node_energies"), ("node_forces", "node_forces"), ("atomic_numbers", "atomic_numbers")):
            a = want.get(nm)
            v = None if a is None else (a[1] if a[0] == "val" else None)
            path = v.path if isinstance(v, SpanVal) else (a[1] if a is not None and a[0] == "path" else None)
            ok = path == (m.root, (("f", k),)) and not (isinstance(v, SpanVal) and not v.off.is_zero())
            ex_.oblige("precondition", TRUE if ok else FALSE, "compute_ZBL is given the model's %s" % k, st)
        new = st.mem[m.root]
        for k in ("node_energies", "node_forces"):
            old = new.f[k]
            new = new.with_(k, VecVal(old.len, SymArr("zbl.%s#%d" % (k, len(log)), (), old.et, m.prog), old.et))
        st.mem[m.root] = new
        log.append(("zbl", before, dict(new.f), {}, st.ctx))
        return None
    ex.contracts["ZBL::compute_ZBL"] = zbl
    for has in (FALSE, TRUE):
        del log[:]
        st = m.begin(has_zbl=has)
        m.call(st, "compute_node_energies_forces")
        links(m, S, st, log, fn, has is TRUE)
        S.take(ex)


def chain(m, S, st, log, fn, has, links=None, tag=None, flags=None):
    """links: communication between stages, name -> field it passes on; m: anything with ex, N, tot, get(st, field)"""
    tag = tag if tag is not None else " (with ZBL)" if has else ""
    links = links or {}
    ACCESS = dict(globals()["ACCESS"])
    ACCESS.update({n: ((k,), (k,)) for n, k in links.items()})
    pos = {}
    for k, e in enumerate(log):
        pos.setdefault(e[0], []).append(k)
    once = list(ACCESS) + (["zbl"] if has else [])
    for name in once:
        S.fact("%s is called exactly once%s" % (name, tag), len(pos.get(name, ())) == 1, fn=fn, kind="postcondition", definite=False)
    if any(len(pos.get(n, ())) != 1 for n in once) or (not has and pos.get("zbl")):
        return
    at = {n: pos[n][0] for n in once}
    same = lambda a, b: a is b or (isinstance(a, VecVal) and isinstance(b, VecVal) and a.arr is b.arr)
    # every stage reads what the stage that makes it left
    maker = {}
    for n in ACCESS:
        if n.startswith("compute_") or n in links:
            for k in ACCESS[n][1]:
                if not k.endswith("_adj") and k != "node_energies":
                    maker.setdefault(k, []).append(n)
    for n, (reads, writes) in ACCESS.items():
        for k in reads:
            if k in maker:
                src = maker[k]
                if len(src) == 2:          # A0, A1: made, then scaled in place
                    src = [src[0] if n == src[1] else src[1]]
                    if n == "compute_" + k or n in links and src == [n]:
                        continue
                S.fact("%s reads the %s that %s made%s" % (n, k, src[0], tag), at[src[0]] < at[n] and same(log[at[src[0]]][2][k], log[at[n]][1][k]),
                       fn=fn, kind="postcondition", definite=False)
    # flags: nothing is zeroed on the way
    for n in once:
        for nm, v in log[at[n]][3].items():
            S.holds("%s is called with %s == false%s" % (n, nm, tag), log[at[n]][4], mk_not(v), fn=fn)
    # energies and forces start from zero, and only stages write them
    first = {k: min(at[n] for n in once if k in (ACCESS[n][1] if n in ACCESS else ("node_energies", "node_forces"))) for k in ("node_energies", "node_forces")}
    for k, size in (("node_energies", m.N), ("node_forces", 3 * m.tot)):
        v = log[first[k]][1][k]
        q = var("q")
        c = log[first[k]][4].assume(*rng((q, size)))
        S.eq("%s is zero before the first stage that adds to it%s" % (k, tag), c, m.ex.num(v.arr.read(q, c)), ZERO, fn=fn)
        S.eq("size of %s%s" % (k, tag), c, v.len, size, fn=fn)
        last = v
        for e in log:
            n = e[0]
            w = ACCESS[n][1] if n in ACCESS else ("node_energies", "node_forces")
            if k in w:
                S.fact("%s adds to the %s left by the stages before it%s" % (n, k, tag), same(e[1][k], last), fn=fn, kind="postcondition", definite=False)
                last = e[2][k]
        S.fact("final %s is what the last stage left%s" % (k, tag), same(m.get(st, k), last), fn=fn, kind="postcondition", definite=False)
    # the identities of the stages, summed: <adj, d field> atoms named by the versions
    names = {}

    def ip(adj, field):
        key = (id(adj.arr), id(field.arr))
        names.setdefault(key, "ip%d" % len(names))
        keep.append((adj, field))
        return app(names[key], ())

    keep = []
    F = lambda v: app("forces%d" % first_seen(v, keep_f), ())
    keep_f = []
    hyps = []
    e = log[at["compute_readouts"]]
    dE = app("dE", ())
    hyps.append(dE - ip(e[2]["H1_adj"], e[1]["H1"]) - ip(e[2]["H2_adj"], e[1]["H2"]))
    for n, (out, ins) in CHAIN.items():
        f, r = log[at["compute_" + n]], log[at["reverse_" + n]]
        t = ip(r[1][ADJ[out]], f[2][out])
        for k in ins:
            t = t - ip(r[2][ADJ[k]], f[1][k])
            if (n, k) in ADDS:
                t = t + ip(r[1][ADJ[k]], f[1][k])
        if "node_forces" in ACCESS["reverse_" + n][1]:
            t = t + F(r[2]["node_forces"]) - F(r[1]["node_forces"])
        hyps.append(t)
    for n, k in links.items():          # summed over the ranks: <adjoint before, d field received> == <adjoint after, d field sent>
        if k in ADJ:
            other = [q for q, k2 in links.items() if k2 == ADJ[k]]
            if len(other) == 1:
                f, r = log[at[n]], log[at[other[0]]]
                hyps.append(ip(r[1][ADJ[k]], f[2][k]) - ip(r[2][ADJ[k]], f[1][k]))
    start = log[at["zbl"]][2]["node_forces"] if has else log[first["node_forces"]][1]["node_forces"]
    goal = dE + F(m.get(st, "node_forces")) - F(start)
    total = sum(hyps, ZERO)
    S.eq("the stage identities add up to: derivative of the energy == - forces . variation of the pair vectors%s" % tag, st.ctx, total, goal, fn=fn)
    S.notes.append("chained %d stage identities%s" % (len(hyps), tag))


def first_seen(v, keep):
    for i, w in enumerate(keep):
        if w.arr is v.arr:
            return i
    keep.append(v)
    return len(keep) - 1


STAGES = dict(A0=st_A0, H1=st_H1, M0=st_M0, M1=st_M1, H2=st_H2, readouts=st_readouts, A1=st_A1, Phi1=st_Phi1, Y=st_Y, R=st_R, whole=st_whole,
              A0s=lambda m: st_scaled(m, 0), A1s=lambda m: st_scaled(m, 1),
              Phi1z=lambda m: st_Phi1(m, (TRUE,)))


def part(prop, name, S):
    m = Model(S, name)
    S.vacuity("class invariant of MACE (stage %s)" % name, m.ctx.assume(mk_le(ONE, m.N)))
    STAGES[name](m)
    S.take(m.ex)


def C18(S):
    for name in STAGES:
        part("C18", name, S)


PROPS = {"C18": C18}
