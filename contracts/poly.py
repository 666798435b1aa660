"""Contracts of MultivariatePolynomial (C13-C16).

Class invariant Graph (what the constructor establishes; nv variables, E edges, N = nv+E nodes):
  0 <= edges[i][0], edges[i][1] < nv+i;  |node_coefficients| == |nodes| == N
  sum_k node_coefficients[k]*mono(k) == sum over the given terms of coefficient * product of the listed variables
Specification functions (s = sample; x(s,.) = its row):
  mono(s,k)   = x(s,k) for k < nv,     mono(s,nv+i)   = mono(s,i0)*mono(s,i1),           (i0,i1) = edges[i]
  dm(s,k,v)   = [k == v] for k < nv,   dm(s,nv+i,v)   = dm(s,i0,v)*mono(s,i1) + mono(s,i0)*dm(s,i1,v)
The work arrays have any size and content (whatever earlier calls left there)."""
from vc.session import *
from vc.invariants import *

DBL = ("double",)
INT = ("int", 32, True)
CLS = "MultivariatePolynomial"


class Poly_:
    def __init__(self, S):
        self.S = S
        self.prog = prog = S.prog("multivariate_polynomial.cpp")
        self.ex = Executor(prog)
        self.nv, self.E = var("nv"), var("E")
        self.N = self.nv + self.E
        nv, E = self.nv, self.E
        ctx = Ctx([mk_le(ZERO, nv), mk_le(ZERO, E)])
        ax = ctx.axioms
        ax.add("P.edges", lambda i, j: [mk_implies(mk_and(mk_le(ZERO, i), mk_lt(i, E), mk_le(ZERO, j), mk_le(j, ONE)),
                                                   mk_and(mk_le(ZERO, app("P.edges", (i, j), "I")),
                                                          mk_lt(app("P.edges", (i, j), "I"), nv + i)))])
        ax.add("P.monomials", lambda i, j: [mk_implies(mk_and(mk_le(ZERO, i), mk_lt(i, self.T), mk_le(ZERO, j), mk_lt(j, self.deg(i))),
                                                       mk_and(mk_le(ZERO, app("P.monomials", (i, j), "I")),
                                                              mk_lt(app("P.monomials", (i, j), "I"), nv)))])
        ax.add("P.monomials.len", lambda *a: [mk_implies(mk_and(mk_le(ZERO, a[0]), mk_lt(a[0], self.T)), mk_le(ONE, self.deg(a[0])))] if a else [])
        self.T = var("T")
        self.ctx = ctx.assume(mk_le(ZERO, self.T))
        obj = make_sym(("struct", CLS), "P", (), prog)
        f = dict(obj.f)
        self.obj0 = obj

        def setlen(k, n):
            f[k] = VecVal(n, f[k].arr, f[k].et)
        self.sym = f
        f["num_variables"] = nv
        setlen("nodes", self.N)
        setlen("edges", E)
        setlen("node_coefficients", self.N)
        setlen("coefficients", self.T)
        setlen("monomials", self.T)
        self.obj = StructVal(CLS, f)
        S.recursive |= {"mono", "dm"}
        self.B = None
        S.trusted.add("MultivariatePolynomial constructor establishes the class invariant Graph (bounded check on the compiled code, not proved)")
        S.bounded_parts.append("MultivariatePolynomial constructor: compiled code run on every set of up to 3 distinct monomials "
                               "(degree <= 4 in 1 variable, <= 5 in 2, <= 3 in 3; pairs of degree <= 2 and single monomials of degree <= 6 in 4 variables) and on random sets")

    # ---- specification
    def deg(self, i):
        return app("P.monomials.len", (i,), "I")

    def e(self, i, j):
        return app("P.edges", (i, P(j)), "I")

    def coef(self, k):
        return app("P.node_coefficients", (k,))

    def x(self, s, k):
        return app("x", (k,)) if self.B is None else app("x", (s * self.nv + k,))

    def mono(self, s, k):
        return app("mono", (k,)) if self.B is None else app("mono", (s, k))

    def dm(self, s, k, v):
        return app("dm", (k, v)) if self.B is None else app("dm", (s, k, v))

    def split(self, a):
        return (None,) + tuple(a.args[1:]) if self.B is None else tuple(a.args[1:])

    def unfold(self, a, ctx):
        nm = a.args[0]
        if nm == "mono":
            s, k = self.split(a)
            if ctx.prove(mk_and(mk_le(ZERO, k), mk_lt(k, self.nv))):
                return self.x(s, k)
        if nm == "dm":
            s, k, v = self.split(a)
            if ctx.prove(mk_and(mk_le(ZERO, k), mk_lt(k, self.nv))):
                return ind(mk_eq(k, v))
        return None

    def mono_def(self, s, k):
        i = k - self.nv
        return self.mono(s, self.e(i, 0)) * self.mono(s, self.e(i, 1))

    def dm_def(self, s, k, v):
        i = k - self.nv
        e0, e1 = self.e(i, 0), self.e(i, 1)
        return self.dm(s, e0, v) * self.mono(s, e1) + self.mono(s, e0) * self.dm(s, e1, v)

    def cellof(self, a, ctx):
        """(sample, node) of cell a of the node arrays"""
        if self.B is None:
            return None, a
        k, s = fresh("k"), fresh("s")
        sol = solve_index(k * self.B + s, ((k, self.N), (s, self.B)), a, ctx)
        if sol is None:
            return None
        return sol[1], sol[0]

    def idx(self, s, k):
        return k if self.B is None else k * self.B + s

    def invariants(self):
        def isd(c):
            return c.et == DBL

        def spec(a, ctx):
            sk = self.cellof(a, ctx)
            return None if sk is None else self.mono(*sk)

        def defn(a, ctx):
            sk = self.cellof(a, ctx)
            return None if sk is None else self.mono_def(*sk)
        return [CellSpec(isd, spec, defn, self.unfold, "nodes evaluated so far hold their monomial"),
                Adjoint(self)]

    def run(self, name, batch):
        S, ex = self.S, self.ex
        self.B = app("batch", (), "I") if batch else None
        if batch:
            self.B = var("batch")
        st = State({}, self.ctx)
        x = make_sym(("vec", DBL), "x", (), self.prog)
        if batch:
            st.ctx = st.ctx.assume(mk_le(ZERO, self.B))
            x = VecVal(self.B * self.nv, x.arr, x.et)
        else:
            x = VecVal(self.nv, x.arr, x.et)
        S.vacuity(name, st.ctx)
        root = ex.new_root("this", self.obj, st, ("struct", CLS))
        self.invs = ex.invariants = self.invariants()
        args = [("val", x)] + ([("val", self.B)] if batch else [])
        v = ex.call_def(ex.find_function(CLS + "::" + name), (root, ()), args, st)
        fn = CLS + "::" + name
        for _, c, _ in st.throws:
            S.holds("%s does not throw" % name, c, FALSE, fn=fn)
        self.frame(st, root, fn)
        return st, v, fn

    def frame(self, s, root, fn):
        now = s.mem[root]
        for k in ("num_variables", "coefficients", "monomials", "nodes", "edges", "node_coefficients"):
            a, b = now.f[k], self.obj.f[k]
            self.S.fact("%s leaves %s unchanged" % (fn, k), a is b or (isinstance(a, VecVal) and a.arr is b.arr and a.len is b.len),
                        fn=fn, kind="class invariant", definite=False)

    # ---- postconditions
    def graph_value(self, s):
        k = fresh("k")
        return mk_msum([(k, self.N)], self.coef(k) * self.mono(s, k))

    def graph_grad(self, s, v):
        k = fresh("k")
        return mk_msum([(k, self.N)], self.coef(k) * self.dm(s, k, v))

    def term(self, i, x):
        j = fresh("j")
        return mk_prod(j, self.deg(i), x(app("P.monomials", (i, j), "I")))

    def term_grad(self, i, v, x):
        j, k = fresh("j"), fresh("k")
        m = lambda q: app("P.monomials", (i, q), "I")
        return mk_msum([(j, self.deg(i))], ind(mk_eq(m(j), v)) *
                       mk_prod(k, self.deg(i), ite(mk_eq(k, j), ONE, x(m(k)))))

    def done(self):
        if not self.S.failed() and not any(o.status == "failed" for o in self.ex.obls):
            return
        for i in self.invs:
            for what, ok, why in i.log:
                if not ok:
                    self.S.notes.append("invariant not established: %s (%s)" % (what, why))

    def check(self, st, v, fn, grad, simple=False):
        S = self.S
        if isinstance(v, StructVal):
            val, g = v.f["0"], v.f["1"]
        else:
            val, g = v, None
        if self.B is None:
            if simple:
                i = fresh("i")
                want = mk_msum([(i, self.T)], app("P.coefficients", (i,)) * self.term(i, lambda k: self.x(None, k)))
            else:
                want = self.graph_value(None)
            S.eq("value == sum of coefficients times monomials", st.ctx, val, want, unfold=self.unfold, fn=fn)
        else:
            S.eq("one value per sample", st.ctx, val.len, self.B, fn=fn)
            s = var("s")
            c = st.ctx.assume(mk_le(ZERO, s), mk_lt(s, self.B))
            S.eq("value of sample s == sum of coefficients times monomials of row s", c, val.arr.read(s, c), self.graph_value(s), unfold=self.unfold, fn=fn)
        if g is None or not grad:
            return
        d = var("d")
        if self.B is None:
            S.eq("one gradient entry per variable", st.ctx, g.len, self.nv, fn=fn)
            c = st.ctx.assume(mk_le(ZERO, d), mk_lt(d, self.nv))
            if simple:
                i = fresh("i")
                want = mk_msum([(i, self.T)], app("P.coefficients", (i,)) * self.term_grad(i, d, lambda k: self.x(None, k)))
            else:
                want = self.graph_grad(None, d)
            S.eq("gradient entry d == partial derivative with respect to x_d", c, g.arr.read(d, c), want, unfold=self.unfold, fn=fn)
        else:
            S.eq("one gradient entry per sample and variable", st.ctx, g.len, self.B * self.nv, fn=fn)
            s = var("s")
            c = st.ctx.assume(mk_le(ZERO, s), mk_lt(s, self.B), mk_le(ZERO, d), mk_lt(d, self.nv))
            S.eq("gradient entry (s,d) == partial derivative for row s", c, g.arr.read(s * self.nv + d, c), self.graph_grad(s, d), unfold=self.unfold, fn=fn)


class Adjoint(Inv):
    """sum over the nodes not yet processed of adjoint * derivative is the same at every iteration"""
    what = "sum of adjoint times node derivative is conserved by the reverse sweep"

    def __init__(self, m):
        Inv.__init__(self)
        self.m = m

    def __call__(self, L):
        done = False
        for c in L.comps:
            if c.resolved or c.kind != "a" or c.nxt is None or not c.updates or c.et != DBL:
                continue
            done |= self.one(L, c)
        return done

    def one(self, L, c):
        m, t = self.m, L.t
        v = fresh("v")
        s = None if m.B is None else fresh("s")
        rng = [mk_le(ZERO, v), mk_lt(v, m.nv)] + ([] if s is None else [mk_le(ZERO, s), mk_lt(s, m.B)])
        uc = L.tctx.assume(*rng)
        R = Resolver(L)
        info, ok = {}, True
        try:
            k = fresh("k")
            kc = uc.assume(mk_le(ZERO, k), mk_lt(k, m.N - t - 1))
            after = c.nxt.read(m.idx(s, k), kc)
            after = R.poly(after, kc) if hasattr(R, "poly") else R.value(after, kc)
            top = m.N - t - 1
            old = lambda q: app(c.name, (t, m.idx(s, q)))
            lhs = mk_msum([(k, top)], after * m.dm(s, k, v))
            rhs = mk_msum([(k, top)], old(k) * m.dm(s, k, v)) + old(top) * m.dm_def(s, top, v)
            if self.others(L, c, lhs):
                ok = False
                info["residual"] = "depends on other unresolved state"
            else:
                ok = prove_eq(uc, lhs, rhs, m.unfold, info=info)
        except Unsupported as e:
            ok = False
            info["residual"] = str(e)
        if not ok:
            self.log.append((self.what, False, str(info.get("residual", ""))[:1600]))
            return False

        def cell(a, tt, ctx):
            # after all edges: Kronecker deltas are left, so the adjoint of variable v is the whole sum
            if not ctx.prove(mk_eq(tt, m.E)):
                return None
            sk = m.cellof(a, ctx)
            if sk is None or not ctx.prove(mk_and(mk_le(ZERO, sk[1]), mk_lt(sk[1], m.nv))):
                return None
            k = fresh("k")
            kc = ctx.assume(mk_le(ZERO, k), mk_lt(k, m.N))
            return mk_msum([(k, m.N)], c.v0.read(m.idx(sk[0], k), kc) * m.dm(sk[0], k, sk[1]))
        L.ex.opaque.add(c.name)

        def at(tt):
            return SpecArr(SymArr(c.name, (tt,), c.et, L.ex.prog), lambda k, ctx: cell(k, tt, ctx), frozen_vars(L, c, tt))
        c.arr_at = at
        c.how = self.what
        self.log.append((self.what, True, ""))
        L.ex.oblige_done("loop invariant", self.what)
        return True

    def others(self, L, c, x):
        names = {o.name for o in L.comps if o is not c and not o.resolved}
        return any(a.kind == "app" and a.args[0] in names for a in collect_atoms(x))


def simple_ok(m, S, names, grad):
    for name in names:
        st, v, fn = m.run(name, False)
        m.check(st, v, fn, grad, simple="simple" in name)
        m.done()
        S.take(m.ex)


def C13(S):
    m = Poly_(S)
    simple_ok(m, S, ("evaluate", "evaluate_simple", "evaluate_gradient", "evaluate_gradient_simple"), False)


def C14(S):
    m = Poly_(S)
    simple_ok(m, S, ("evaluate_gradient", "evaluate_gradient_simple"), True)


def batch(m, S):
    st, v, fn = m.run("evaluate_batch", True)
    m.check(st, v, fn, True)
    m.done()
    S.take(m.ex)


def C15(S):
    m = Poly_(S)
    batch(m, S)
    simple_ok(m, S, ("evaluate", "evaluate_gradient"), True)


def C16(S):
    m = Poly_(S)
    batch(m, S)
    simple_ok(m, S, ("evaluate", "evaluate_gradient", "evaluate_simple", "evaluate_gradient_simple"), True)


PROPS = {"C13": C13, "C14": C14, "C15": C15, "C16": C16}
