"""Contracts of CubicSpline and CubicSplineSet (C01-C04)."""
from vc.session import *

DBL = ("double",)


def vecsym(prog, name, et=DBL):
    return make_sym(("vec", et), name, (), prog)


def hermite(h, v, d, k, x):
    """cubic on interval k matching values v and derivatives d at both ends, at local coordinate x"""
    s = x * inv(h)
    return (v(k) * (ONE - 3 * s * s + 2 * s * s * s) + v(k + 1) * (3 * s * s - 2 * s * s * s)
            + h * d(k) * (s - 2 * s * s + s * s * s) + h * d(k + 1) * (s * s * s - s * s))


ENTRY = ("evaluate", "evaluate_deriv", "evaluate_deriv_divided")


def spline_object(S):
    prog = S.prog("cubic_spline.cpp")
    ex = Executor(prog)
    h = app("h", (), "R")
    nv, nd = vecsym(prog, "nv"), vecsym(prog, "nd")
    n = nv.len
    ctx = Ctx([mk_lt(ZERO, h), mk_le(P(2), n), mk_eq(nd.len, n)])
    S.vacuity("CubicSpline constructor", ctx)
    st = State({}, ctx)
    obj = ex.construct("CubicSpline", [("val", h), ("val", nv), ("val", nd)], st)
    S.fact("constructor does not throw on valid data", not any(not c.inconsistent() for _, c, _ in st.throws),
           fn="CubicSpline::CubicSpline", definite=None)
    root = ex.new_root("this", obj, st, ("struct", "CubicSpline"))
    return prog, ex, st, root, h, n


def call(ex, st, root, cls, name, args):
    s = st.copy()
    s.throws = []
    fn = ex.find_function(cls + "::" + name)
    v = ex.call_def(fn, (root, ()), args, s)
    return s, v


def in_domain(S, ex, st, root, h, n, name):
    """run one entry point at r = h*k + x, 0<=k<n-1, 0<=x<h (every in-domain argument has this form)"""
    k = var("k")
    x = var("x", "R")
    r = h * k + x
    s = st.copy()
    s.ctx = s.ctx.assume(mk_le(ZERO, k), mk_lt(k, n - 1), mk_le(ZERO, x), mk_lt(x, h))
    S.vacuity(name + " in domain", s.ctx)
    s2, v = call(ex, s, root, "CubicSpline", name, [("val", r)])
    return s, s2, v, k, x, r


def unchanged(S, ex, s0, s1, root, fn):
    """evaluation leaves the object as it was (so results cannot depend on earlier calls)"""
    a, b = s0.mem[root], s1.mem[root]
    same = a is b or all(a.f[q] is b.f[q] for q in a.f)
    S.fact("%s changes no member" % fn, same, fn=fn, kind="frame", definite=False)


def C01(S):
    prog, ex, st, root, h, n = spline_object(S)
    v_ = lambda i: app("nv", (i,))
    d_ = lambda i: app("nd", (i,))
    for name in ENTRY:
        fn = "CubicSpline::" + name
        s, s2, v, k, x, r = in_domain(S, ex, st, root, h, n, name)
        if isinstance(v, Opaque):
            S.fact("%s returns in domain" % name, False, "always throws", fn=fn, definite=True)
            continue
        val = v if isinstance(v, Poly) else v.f["0"]
        S.eq("%s(h*k+x) == Hermite cubic of interval k" % name, s2.ctx, val, hermite(h, v_, d_, k, x), fn=fn, ex=ex)
        unchanged(S, ex, s, s2, root, fn)
    # consequences over the contract: nodal values and C1 continuity
    k = var("k")
    c = st.ctx.assume(mk_le(ZERO, k), mk_lt(k, n - 1))
    x = var("x", "R")
    H = hermite(h, v_, d_, k, x)
    xa = x.as_atom()
    dH = diff(H, lambda a: ONE if a is xa else None)
    S.eq("lemma: interpolant meets nodal value at the left node", c, subst(H, {xa: ZERO}), v_(k), fn="lemma")
    S.eq("lemma: interpolant meets nodal value at the right node", c, subst(H, {xa: h}), v_(k + 1), fn="lemma")
    S.eq("lemma: slope at the left node", c, subst(dH, {xa: ZERO}), d_(k), fn="lemma")
    S.eq("lemma: slope at the right node", c, subst(dH, {xa: h}), d_(k + 1), fn="lemma")
    S.take(ex)


def C02(S):
    prog, ex, st, root, h, n = spline_object(S)
    for name in ("evaluate_deriv", "evaluate_deriv_divided"):
        fn = "CubicSpline::" + name
        s, s2, v, k, x, r = in_domain(S, ex, st, root, h, n, name)
        if isinstance(v, Opaque):
            S.fact("%s returns in domain" % name, False, "always throws", fn=fn, definite=True)
            continue
        val, der = v.f["0"], v.f["1"]
        # the value as an explicit function of x on this interval
        val = simplify(val, s2.ctx)
        der = simplify(der, s2.ctx)
        xa = x.as_atom()
        dv = diff(val, lambda a: ONE if a is xa else None)
        c = s2.ctx
        if name.endswith("divided"):
            c = c.assume(mk_lt(ZERO, r))
            S.eq("%s: second == d(first)/dr / r" % name, c, der * r, dv, fn=fn, ex=ex)
        else:
            S.eq("%s: second == d(first)/dr" % name, c, der, dv, fn=fn, ex=ex)
        unchanged(S, ex, s, s2, root, fn)
    # the value returned alone is the same function, so its derivative is the one returned with it
    s, s2, v0, k, x, r = in_domain(S, ex, st, root, h, n, "evaluate")
    s, s3, v1, k, x, r = in_domain(S, ex, st, root, h, n, "evaluate_deriv")
    S.eq("evaluate == first of evaluate_deriv", s2.ctx, v0, v1.f["0"], fn="CubicSpline::evaluate", ex=ex)
    S.take(ex)


def C03(S):
    prog, ex, st, root, h, n = spline_object(S)
    r = app("r", (), "R")
    for name in ENTRY:
        fn = "CubicSpline::" + name
        # 1. outside: every path throws
        for what, dom in (("r < 0", mk_lt(r, ZERO)), ("r >= h*(n-1)", mk_le(h * (n - 1), r))):
            s = st.copy()
            s.ctx = s.ctx.assume(dom)
            S.vacuity("%s %s" % (name, what), s.ctx)
            s2, v = call(ex, s, root, "CubicSpline", name, [("val", r)])
            # the path that returns a value must be infeasible
            S.holds("%s throws for %s" % (name, what), s2.ctx, FALSE, fn=fn, ex=ex)
        # 2. inside: no throw (side obligations of the run cover the coefficient table)
        s, s2, v, k, x, rr = in_domain(S, ex, st, root, h, n, name)
        for pc, c, msg in s2.throws:
            S.holds("%s does not throw in the domain" % name, c, FALSE, fn=fn, ex=ex)
        S.fact("%s returns in the domain" % name, not isinstance(v, Opaque), fn=fn, definite=True)
        # 3. any argument: no out-of-bounds access
        s = st.copy()
        call(ex, s, root, "CubicSpline", name, [("val", r)])
    S.assumptions.add("r/h fits in an int")
    S.take(ex)


# ---------------------------------------------------------------- spline sets
def set_object(S):
    prog = S.prog("cubic_spline_set.cpp")
    ex = Executor(prog)
    h = app("h", (), "R")
    vv, dd = vecsym(prog, "nv", ("vec", DBL)), vecsym(prog, "nd", ("vec", DBL))
    m, n = vv.len, app("n", (), "I")
    ctx = Ctx([mk_lt(ZERO, h), mk_le(ONE, m), mk_le(P(2), n), mk_eq(dd.len, m)])
    for nm in ("nv.len", "nd.len"):
        ctx.axioms.add(nm, lambda *a: [mk_implies(mk_and(mk_le(ZERO, a[0]), mk_lt(a[0], m)),
                                                  mk_eq(app(nm_, a, "I"), n)) for nm_ in ("nv.len", "nd.len")] if a else [])
    S.vacuity("CubicSplineSet constructor", ctx)
    st = State({}, ctx)
    obj = ex.construct("CubicSplineSet", [("val", h), ("val", vv), ("val", dd)], st)
    root = ex.new_root("this", obj, st, ("struct", "CubicSplineSet"))
    return prog, ex, st, root, h, m, n


def C04(S):
    prog, ex, st, root, h, m, n = set_object(S)
    S.fact("constructor does not throw on valid data", not any(not c.inconsistent() for _, c, _ in st.throws),
           fn="CubicSplineSet::CubicSplineSet", definite=None)
    k, x, j, q = var("k"), var("x", "R"), var("j"), var("q")
    r = h * k + x
    v_ = lambda i: app("nv", (j, i))
    d_ = lambda i: app("nd", (j, i))
    H = hermite(h, v_, d_, k, x)
    xa = x.as_atom()
    dH = diff(H, lambda a: ONE if a is xa else None)
    for name, outs in (("evaluate", ("values",)), ("evaluate_derivs", ("values", "derivs"))):
        fn = "CubicSplineSet::" + name
        s = st.copy()
        s.ctx = s.ctx.assume(mk_le(ZERO, k), mk_lt(k, n - 1), mk_le(ZERO, x), mk_lt(x, h))
        args = [("val", r)]
        roots = []
        for o in outs:
            buf = vecsym(prog, o)
            s.ctx = s.ctx.assume(mk_le(m, buf.len))
            rt = ex.new_root(o, buf, s, ("vec", DBL))
            roots.append((o, rt, buf))
            args.append(("val", SpanVal((rt, ()), ZERO, buf.len)))
        S.vacuity(name, s.ctx)
        s2, v = call(ex, s, root, "CubicSplineSet", name, args)
        for pc, c, msg in s2.throws:
            S.holds("%s does not throw in the domain" % name, c, FALSE, fn=fn, ex=ex)
        for o, rt, buf in roots:
            out = s2.mem[rt]
            c = s2.ctx.assume(mk_le(ZERO, j), mk_lt(j, m))
            S.eq("%s: %s[j] == %s of component j" % (name, o, "interpolant" if o == "values" else "derivative"),
                 c, out.arr.read(j, c), H if o == "values" else dH, fn=fn, ex=ex)
            c = s2.ctx.assume(mk_le(m, q), mk_lt(q, buf.len))
            S.eq("%s: %s[q] unchanged for q >= m" % (name, o), c, out.arr.read(q, c), app(o, (q,)), fn=fn, ex=ex, kind="frame")
        unchanged(S, ex, s, s2, root, fn)
    S.assumptions.add("output spans do not alias the object or each other")
    S.take(ex)


FILES = {"C01": ["cubic_spline.cpp"], "C02": ["cubic_spline.cpp"], "C03": ["cubic_spline.cpp"], "C04": ["cubic_spline_set.cpp"]}
PROPS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04}
