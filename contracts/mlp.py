"""Contracts of MultilayerPerceptron (C09-C12).

Specification functions (L = number of layers of nodes, n(l) = shape[l], s = sample, one sample when not batched):
  act(s,0,i)   = input row s, entry i
  act(s,l,i)   = f(pre(s,l,i)) for 1 <= l <= L-2,   pre(s,l,i) = sum_k W[l-1][i*n(l-1)+k] * act(s,l-1,k)
  out(s,o)     = pre(s,L-1,o)
  jac(s,L-2,o,j) = W[L-2][o*n(L-2)+j],  jac(s,l,o,j) = sum_p jac(s,l+1,o,p) * f'(pre(s,l+1,p)) * W[l][p*n(l)+j]
Class invariant: shape, weights and the scale are as constructed; the three work arrays have L entries (of any
size and content: whatever earlier calls left there)."""
from vc.session import *
from vc.invariants import *

DBL = ("double",)
INT = ("int", 32, True)
VV = ("vec", ("vec", DBL))
CLS = "MultilayerPerceptron"


class M:
    def __init__(self, S):
        self.S = S
        self.prog = prog = S.prog("multilayer_perceptron.cpp")
        self.ex = ex = Executor(prog)
        self.shape = make_sym(("vec", INT), "shape", (), prog)
        self.shape = VecVal(var("L"), self.shape.arr, self.shape.et)
        self.W = make_sym(VV, "W", (), prog)
        self.W = VecVal(self.shape.len - 1, self.W.arr, self.W.et)
        self.s = app("scale", (), "R")
        self.L = L = self.shape.len
        ctx = Ctx([mk_le(P(2), L)])
        ax = ctx.axioms
        ax.add("shape", lambda i: [mk_implies(mk_and(mk_le(ZERO, i), mk_lt(i, L)), mk_le(ONE, app("shape", (i,), "I")))])
        ax.add("W.len", lambda *a: [mk_implies(mk_and(mk_le(ZERO, a[0]), mk_lt(a[0], L - 1)),
                                               mk_eq(app("W.len", a, "I"), self.n(a[0]) * self.n(a[0] + 1)))] if a else [])
        self.st = State({}, ctx)
        self.B = None
        S.recursive |= {"act", "jac", "dact"}
        S.vacuity("perceptron", ctx)

    def n(self, l):
        return app("shape", (l,), "I")

    # ---- specification
    def f(self, x):
        return self.s * x * inv(ONE + exp_(-x))

    def df(self, x):
        v = var("y", "R")
        va = v.as_atom()
        return subst(diff(self.f(v), lambda a: ONE if a is va else None), {va: x})

    def x(self, s, i):
        return app("input", (s * self.n(ZERO) + i,)) if self.B is not None else app("input", (i,))

    def act(self, s, l, i):
        return app("act", (s, l, i)) if self.B is not None else app("act", (l, i))

    def pre(self, s, l, i):
        k = fresh("k")
        return mk_msum([(k, self.n(l - 1))], app("W", (l - 1, i * self.n(l - 1) + k)) * self.act(s, l - 1, k))

    def jac(self, s, l, o, j):
        return app("jac", (s, l, o, j)) if self.B is not None else app("jac", (l, o, j))

    def unfold(self, a, ctx):
        nm = a.args[0]
        if nm == "act":
            s, l, i = a.args[1:] if self.B is not None else (None,) + tuple(a.args[1:])
            if l.is_zero() or ctx.prove(mk_eq(l, ZERO)):
                return self.x(s, i)
        if nm == "W.len" and len(a.args) == 2:
            l = a.args[1]
            if ctx.prove(mk_and(mk_le(ZERO, l), mk_lt(l, self.L - 1))):
                return self.n(l) * self.n(l + 1)
        if nm == "jac":
            s, l, o, j = a.args[1:] if self.B is not None else (None,) + tuple(a.args[1:])
            if (l - (self.L - 2)).is_zero() or ctx.prove(mk_eq(l, self.L - 2)):
                return app("W", (self.L - 2, o * self.n(self.L - 2) + j))
        return None

    # ---- grids: specification arrays of one layer
    def layer(self, l, val):
        """VecVal of layer l: cell [s*n+i] (or [i]) == val(s,i)"""
        nl = self.n(l)
        i = fresh("i")
        if self.B is None:
            return VecVal(nl, GridArr([(i, nl)], i, val(None, i)), DBL)
        s = fresh("s")
        return VecVal(self.B * nl, GridArr([(s, self.B), (i, nl)], s * nl + i, val(s, i)), DBL)

    def jlayer(self, l, val):
        nl, no = self.n(l), self.n(self.L - 1)
        o, j = fresh("o"), fresh("j")
        if self.B is None:
            return VecVal(no * nl, GridArr([(o, no), (j, nl)], o * nl + j, val(None, o, j)), DBL)
        s = fresh("s")
        return VecVal(self.B * no * nl, GridArr([(s, self.B), (o, no), (j, nl)], (s * no + o) * nl + j, val(s, o, j)), DBL)

    def invariants(self):
        last = self.L - 1

        def isvv(c):
            return c.et is not None and c.et[0] == "vec"

        def aspec(l, ctx):
            return self.layer(l, lambda s, i: self.act(s, l, i))

        def adef(l, ctx):
            return self.layer(l, lambda s, i: self.f(self.pre(s, l, i)))

        def jspec(t, ctx):
            l = self.L - 2 - t
            return self.jlayer(l, lambda s, o, j: self.jac(s, l, o, j))

        def jdef(t, ctx):
            l = self.L - 2 - t
            p = fresh("p")

            def val(s, o, j):
                return mk_msum([(p, self.n(l + 1))], self.jac(s, l + 1, o, p) * self.df(self.pre(s, l + 1, p))
                               * app("W", (l, p * self.n(l) + j)))
            return self.jlayer(l, val)
        return [CellSpec(isvv, aspec, adef, self.unfold, "layers evaluated so far hold their activations"),
                FrontierSpec(isvv, lambda t: self.L - 2 - t, jspec, jdef, self.unfold,
                             "the derivative array reached by the sweep holds the Jacobian of the outputs")]

    # ---- generic object: any state earlier calls can leave
    def construct(self):
        S, ex = self.S, self.ex
        st = self.st.copy()
        obj = ex.construct(CLS, [("val", self.shape), ("val", self.W), ("val", self.s)], st)
        S.fact("constructor does not throw", not any(not c.inconsistent() for _, c, _ in st.throws), fn=CLS + "::" + CLS, definite=None)
        self.work, self.keep = [], []
        for k, v in obj.f.items():
            if isinstance(v, VecVal) and v.et[0] == "vec" and v.arr is not self.W.arr:
                S.eq("constructor: %s has one entry per layer" % k, st.ctx, v.len, self.L, fn=CLS + "::" + CLS, ex=ex)
                self.work.append(k)
            else:
                self.keep.append(k)
        f = dict(obj.f)
        for k in self.work:
            v = make_sym(VV, "old_" + k, (), self.prog)
            f[k] = VecVal(self.L, v.arr, v.et)
        return st, StructVal(obj.cls, f)

    def run(self, name, batch, st0, obj):
        """call one entry point on the generic object; returns (state after, result)"""
        S, ex = self.S, self.ex
        self.B = app("batch", (), "I") if batch else None
        st = st0.copy()
        st.throws = []
        inp = make_sym(("vec", DBL), "input", (), self.prog)
        if batch:
            st.ctx = st.ctx.assume(mk_le(ZERO, self.B), mk_eq(inp.len, self.B * self.n(ZERO)))
        else:
            st.ctx = st.ctx.assume(mk_eq(inp.len, self.n(ZERO)))
        S.vacuity(name, st.ctx)
        root = ex.new_root("this", obj, st, ("struct", CLS))
        self.invs = self.invariants()
        ex.invariants = self.invs
        args = [("val", inp)] + ([("val", self.B)] if batch else [])
        s = st.copy()
        v = ex.call_def(ex.find_function(CLS + "::" + name), (root, ()), args, s)
        fn = CLS + "::" + name
        for _, c, _ in s.throws:
            S.holds("%s does not throw" % name, c, FALSE, fn=fn)
        return s, v, root, fn

    def frame(self, s, root, obj, fn):
        S, ex = self.S, self.ex
        now = s.mem[root]
        for k in self.keep:
            S.fact("%s leaves %s unchanged" % (fn, k), now.f[k] is obj.f[k] or now.f[k] == obj.f[k], fn=fn, kind="frame", definite=False)
        for k in self.work:
            S.eq("%s: %s keeps one entry per layer" % (fn, k), s.ctx, now.f[k].len, self.L, fn=fn, ex=ex, kind="class invariant")

    def check_value(self, s, out, fn, what="value"):
        S = self.S
        last = self.L - 1
        want = self.layer(last, lambda q, i: self.pre(q, last, i))
        S.eq("%s: number of outputs" % what, s.ctx, out.len, want.len, fn=fn, ex=self.ex)
        idx, rng, val = want.arr.decomp()
        c = s.ctx.assume(*rng)
        S.eq("%s == last layer of the composition" % what, c, out.arr.read(idx, c), val, unfold=self.unfold, fn=fn, ex=self.ex)

    def check_jac(self, s, out, fn):
        S = self.S
        want = self.jlayer(ZERO, lambda q, o, j: self.jac(q, ZERO, o, j))
        S.eq("gradient: number of entries", s.ctx, out.len, want.len, fn=fn, ex=self.ex)
        idx, rng, val = want.arr.decomp()
        c = s.ctx.assume(*rng)
        S.eq("gradient entry (o,i) == reverse-mode Jacobian", c, out.arr.read(idx, c), val, unfold=self.unfold, fn=fn, ex=self.ex)

    def done(self):
        if not self.S.failed() and not any(o.status == "failed" for o in self.ex.obls):
            return
        for i in getattr(self, "invs", []):
            for what, ok, why in i.log:
                if not ok:
                    self.S.notes.append("invariant not established: %s (%s)" % (what, why))


def jacobian_lemma(S, m):
    """sum_p jac(l,o,p) * d act(l,p)/d x_i does not depend on l: at l=L-2 it is d out/dx_i, at l=0 it is jac(0,o,i)"""
    m.B = None
    l, o, i = var("l"), var("o"), var("i")
    dact = lambda l, p: app("dact", (l, p, i))      # derivative of act(l,p) with respect to x_i
    c = m.st.ctx.assume(mk_le(ZERO, l), mk_lt(l, m.L - 2), mk_le(ZERO, o), mk_le(ZERO, i))
    p, q, k = fresh("p"), fresh("q"), fresh("k")
    # chain rule for one layer (defining equation of dact)
    dnext = lambda l, p: m.df(m.pre(None, l + 1, p)) * mk_msum([(k, m.n(l))], app("W", (l, p * m.n(l) + k)) * dact(l, k))
    lhs = mk_msum([(p, m.n(l + 1))], m.jac(None, l + 1, o, p) * dnext(l, p))
    jl = mk_msum([(q, m.n(l + 1))], m.jac(None, l + 1, o, q) * m.df(m.pre(None, l + 1, q)) * app("W", (l, q * m.n(l) + p)))
    rhs = mk_msum([(p, m.n(l))], jl * dact(l, p))
    S.eq("lemma: contraction of reverse Jacobian with forward derivative is the same at every layer", c, lhs, rhs, fn="lemma", kind="lemma")
    # ends of the telescope
    c2 = m.st.ctx.assume(mk_le(ZERO, o), mk_lt(o, m.n(m.L - 1)), mk_le(ZERO, i), mk_lt(i, m.n(ZERO)))
    dl = mk_msum([(p, m.n(m.L - 2))], app("W", (m.L - 2, o * m.n(m.L - 2) + p)) * dact(m.L - 2, p))
    S.eq("lemma: at the last hidden layer it is the derivative of output o", c2,
         mk_msum([(p, m.n(m.L - 2))], m.jac(None, m.L - 2, o, p) * dact(m.L - 2, p)), dl, unfold=m.unfold, fn="lemma", kind="lemma")
    S.eq("lemma: at the input layer it is jac(0,o,i)", c2,
         mk_msum([(p, m.n(ZERO))], m.jac(None, ZERO, o, p) * ind(mk_eq(p, i))), m.jac(None, ZERO, o, i), fn="lemma", kind="lemma")
    S.trusted.add("calculus: chain rule for compositions of differentiable functions; derivative of exp")


def C09(S):
    m = M(S)
    st, obj = m.construct()
    for name in ("evaluate", "evaluate_gradient"):
        s, v, root, fn = m.run(name, False, st, obj)
        m.check_value(s, v if isinstance(v, VecVal) else v.f["0"], fn)
        m.frame(s, root, obj, fn)
        m.done()
        S.take(m.ex)


def C10(S):
    m = M(S)
    st, obj = m.construct()
    s, v, root, fn = m.run("evaluate_gradient", False, st, obj)
    m.check_value(s, v.f["0"], fn)
    m.check_jac(s, v.f["1"], fn)
    m.done()
    S.take(m.ex)
    jacobian_lemma(S, m)


def C11(S):
    m = M(S)
    st, obj = m.construct()
    for name in ("evaluate_batch", "evaluate_gradient_batch"):
        s, v, root, fn = m.run(name, True, st, obj)
        m.check_value(s, v if isinstance(v, VecVal) else v.f["0"], fn)
        if not isinstance(v, VecVal):
            m.check_jac(s, v.f["1"], fn)
        m.done()
        S.take(m.ex)
    # per-sample functions satisfy the same specification with one row
    for name in ("evaluate", "evaluate_gradient"):
        s, v, root, fn = m.run(name, False, st, obj)
        m.check_value(s, v if isinstance(v, VecVal) else v.f["0"], fn)
        if not isinstance(v, VecVal):
            m.check_jac(s, v.f["1"], fn)
        S.take(m.ex)
    S.notes.append("act(s,.), jac(s,.) mention only row s of the input, so rows cannot influence each other")


def C12(S):
    m = M(S)
    st, obj = m.construct()
    for name, b in (("evaluate", False), ("evaluate_gradient", False), ("evaluate_batch", True), ("evaluate_gradient_batch", True)):
        s, v, root, fn = m.run(name, b, st, obj)
        m.check_value(s, v if isinstance(v, VecVal) else v.f["0"], fn)
        if not isinstance(v, VecVal):
            m.check_jac(s, v.f["1"], fn)
        m.frame(s, root, obj, fn)
        m.done()
        S.take(m.ex)


PROPS = {"C09": C09, "C10": C10, "C11": C11, "C12": C12}
