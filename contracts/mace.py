"""Contracts of the full model, class MACE (C18, C19).

Class invariant Model (what load_from_json establishes from a well-formed file; not proved):
  n = |atomic_numbers| >= 1; one radial table per unordered pair of elements: |spl_set_0| == |spl_set_1| == |A0_splines|
  == |A1_splines| == n(n+1)/2, all tables of a set with the same number of splines;
  num_lm == (l_max+1)^2, num_LM == (L_max+1)^2, weight arrays of the matching sizes."""
from vc.session import *
from vc.invariants import *
from vc.stdmodel import write_family

DBL = ("double",)
INT = ("int", 32, True)
CLS = "MACE"


def tri(i, j, n):
    """number of the unordered pair {i,j}, i <= j, when pairs are listed row by row"""
    return (i * (2 * n - i - 1)) * P(Fraction(1, 2)) + j


def pair_no(i, j, n):
    return ite(mk_le(i, j), tri(i, j, n), tri(j, i, n))


class Mace:
    def __init__(self, S, stage=None):
        """one call: num_nodes nodes; the arrays of nodes and pairs may be longer, and H1 may have rows of further atoms"""
        self.S = S
        self.prog = prog = S.prog("mace.cpp")
        self.ex = ex = Executor(prog)
        self.n = n = var("n")
        obj = make_sym(("struct", CLS), "M", (), prog)
        f = dict(obj.f)
        self.npair = n * (n + 1) * P(Fraction(1, 2))
        f["atomic_numbers"] = VecVal(n, f["atomic_numbers"].arr, f["atomic_numbers"].et)
        for k in ("spl_set_0", "spl_set_1", "A0_splines", "A1_splines"):
            f[k] = VecVal(self.npair, f[k].arr, f[k].et)
        self.nlm, self.nLM, self.nc = var("num_lm"), var("num_LM"), var("nc")
        f["num_lm"], f["num_LM"], f["num_channels"] = self.nlm, self.nLM, self.nc
        self.nspl = {"M.spl_set_0": var("nspl0"), "M.spl_set_1": var("nspl1")}
        for nm, z in self.nspl.items():
            k = nm[2:]
            base = f[k].arr
            f[k] = VecVal(self.npair, LamArr(lambda i, base=base, z=z: base.read(i, None).with_("num_splines", z)), f[k].et)
        self.f = f
        ctx = Ctx([mk_le(ONE, n), mk_le(ONE, self.nspl["M.spl_set_0"]), mk_le(ONE, self.nspl["M.spl_set_1"])])
        self.N = N = var("num_nodes")
        ax = ctx.axioms
        rng = lambda nm, lo, hi: ax.add(nm, lambda *a: [mk_le(lo, app(nm, a, "I")), mk_lt(app(nm, a, "I"), hi)] if a else [])
        rng("node_types", ZERO, n)
        rng("neigh_types", ZERO, n)
        self.NH = N if stage == "whole" else var("num_rows")
        rng("neigh_indices", ZERO, self.NH)
        ax.add("num_neigh", lambda *a: [mk_le(ZERO, app("num_neigh", a, "I"))] if a else [])
        ax.add("r", lambda *a: [mk_lt(ZERO, app("r", a))] if a else [])
        self.v = fresh("i")
        self.tot = self.off(N)
        more = [ZERO, ZERO] if stage == "whole" else [var("more_nodes"), var("more_pairs")]
        self.nodes, self.pairs = N + more[0], self.tot + more[1]
        ctx = ctx.assume(mk_le(N, self.NH), *[mk_le(ZERO, x) for x in more])
        ctx = ctx.assume(mk_le(ZERO, N), mk_le(ONE, self.nlm), mk_le(ONE, self.nLM), mk_le(ONE, self.nc))
        self.ctx = ctx
        self.contracts()
        S.trusted.add("class invariant Model of MACE (sizes and ranges of what load_from_json reads) is assumed, not proved")

    def off(self, t):
        v = fresh("i")
        return mk_msum([(v, t)], app("num_neigh", (v,), "I"))

    # ---- callee contracts (C01, C02, C04)
    def contracts(self):
        ex, S = self.ex, self.S

        def table(this):
            root, sel = this
            names = [s[1] for s in sel if s[0] == "f"]
            idx = [s[1] for s in sel if s[0] == "i"]
            if len(names) != 1 or len(idx) != 1:
                raise Unsupported("spline object is not an element of a table of the model: %r" % (sel,))
            return names[0], idx[0]

        def val(a, st):
            return a[1] if a[0] == "val" else ex.read_path(a[1], st)

        def set_derivs(ex_, st, this, args):
            nm, k = table(this)
            r, vs, ds = [val(a, st) for a in args]
            m = self.nspl["M." + nm]
            for w, suffix in ((vs, ""), (ds, "'")):
                dst = ex_.read_path(w.path, st)
                ex_.oblige("precondition", mk_le(m, w.len), "evaluate_derivs: buffer holds one entry per spline", st)
                ex_.range_ob(dst, w.off, m, "evaluate_derivs buffer", st, None)
                write_family(ex_, PtrVal(w.path, w.off), m, lambda p: w.off + p,
                             lambda p, c: app("Spl" + suffix, (P(int(nm[-1])), k, p, r)), "evaluate_derivs", st, None)
            return None

        def one(ex_, st, this, args):
            nm, k = table(this)
            return app("Sc", (P(int(nm[1])), k, val(args[0], st)))

        def one_d(ex_, st, this, args):
            nm, k = table(this)
            r = val(args[0], st)
            return StructVal("tuple", {"0": app("Sc", (P(int(nm[1])), k, r)), "1": app("Sc'", (P(int(nm[1])), k, r))})
        ex.contracts["CubicSplineSet::evaluate_derivs"] = set_derivs
        ex.contracts["CubicSpline::evaluate"] = one
        ex.contracts["CubicSpline::evaluate_deriv"] = one_d
        S.trusted.add("contracts of CubicSpline and CubicSplineSet used here are the ones proved in C01, C02, C04 (r inside the spline domain)")

    # ---- running a stage
    NAMES = dict(node_types=INT, num_neigh=INT, neigh_indices=INT, neigh_types=INT, xyz=DBL, r=DBL)

    def start(self, fields=(), facts=()):
        """fresh generic object; fields: name -> length (a size the class invariant or an earlier stage gives it)"""
        f = dict(self.f)
        for k, n in dict(fields).items():
            f[k] = VecVal(n, f[k].arr, f[k].et) if isinstance(f[k], VecVal) else n
        st = State({}, self.ctx.assume(*facts))
        st.throws = []
        self.root = self.ex.new_root("this", StructVal(CLS, f), st, ("struct", CLS))
        N, tot = self.nodes, self.pairs
        L = dict(node_types=N, num_neigh=N, neigh_indices=tot, neigh_types=tot, xyz=3 * tot, r=tot)
        self.spans, self.bufs = {}, {}
        for nm, et in self.NAMES.items():
            b = make_sym(("vec", et), nm, (), self.prog)
            b = VecVal(L[nm], b.arr, b.et)
            rt = self.ex.new_root(nm, b, st, ("vec", et))
            self.bufs[nm] = (rt, b)
            self.spans[nm] = SpanVal((rt, ()), ZERO, L[nm])
        self.f0 = f
        return st

    def call(self, st, name, flags=None):
        ex = self.ex
        fn = ex.find_function(CLS + "::" + name)
        args = []
        for p in ex.params(fn):
            nm = p.get("name")
            if nm == "num_nodes":
                args.append(("val", self.N))
            elif nm in self.spans:
                args.append(("val", self.spans[nm]))
            elif flags and nm in flags:
                args.append(("val", flags[nm]))
            else:
                raise Unsupported("parameter %s of %s" % (nm, name))
        ex.call_def(fn, (self.root, ()), args, st)
        for _, c, _ in st.throws:
            self.S.holds("%s does not throw" % name, c, FALSE, fn=CLS + "::" + name)
        st.throws = []
        return st

    def get(self, st, k):
        return st.mem[self.root].f[k]

    def pair_ctx(self, ctx):
        """a generic pair: atom i, neighbour j, position p in the pair arrays"""
        i, j = var("i"), var("j")
        c = ctx.assume(mk_le(ZERO, i), mk_lt(i, self.N), mk_le(ZERO, j), mk_lt(j, app("num_neigh", (i,), "I")))
        return c, i, j, self.off(i) + j

    def type_no(self, i, p):
        return pair_no(app("node_types", (i,), "I"), app("neigh_types", (p,), "I"), self.n)

    def frame(self, st, name, written):
        fn = CLS + "::" + name
        now = st.mem[self.root]
        for k, a in now.f.items():
            if k not in written:
                b = self.f0[k]
                same = a is b or (isinstance(a, VecVal) and a.arr is b.arr and a.len is b.len)
                self.S.fact("%s leaves %s unchanged" % (name, k), same, fn=fn, kind="frame", definite=False)


def C19(S):
    m = Mace(S)
    n = m.n
    S.vacuity("MACE stages", m.ctx.assume(mk_le(ONE, m.N)))
    # the numbering itself
    a, b, c, d = (var(x) for x in "abcd")
    rng = [mk_le(ZERO, a), mk_le(a, b), mk_lt(b, n), mk_le(ZERO, c), mk_le(c, d), mk_lt(d, n)]
    cx = m.ctx.assume(*rng)
    S.eq("pair number symmetric in the two types", m.ctx.assume(mk_le(ZERO, a), mk_le(ZERO, b), mk_lt(a, n), mk_lt(b, n)),
         pair_no(a, b, n), pair_no(b, a, n), kind="lemma")
    S.holds("pair number >= 0", cx, mk_le(ZERO, tri(a, b, n)), kind="lemma")
    S.holds("pair number < n(n+1)/2", cx, mk_lt(tri(a, b, n), m.npair), kind="lemma")
    S.holds("different rows have different numbers", cx.assume(mk_lt(a, c)), mk_lt(tri(a, b, n), tri(c, d, n)), kind="lemma")
    S.holds("different columns of a row have different numbers", cx.assume(mk_eq(a, c), mk_lt(b, d)), mk_lt(tri(a, b, n), tri(c, d, n)), kind="lemma")
    S.eq("first pair has number 0", m.ctx, tri(ZERO, ZERO, n), ZERO, kind="lemma")
    S.eq("next column, next number", cx, tri(a, b + 1, n), tri(a, b, n) + 1, kind="lemma")
    S.eq("next row follows the last column", cx, tri(a + 1, a + 1, n), tri(a, n - 1, n) + 1, kind="lemma")
    for q in (0, 1):
        radial(m, S, q)
    for q in (0, 1):
        scaled(m, S, q)


def radial(m, S, q):
    if True:
        name = "compute_R%d" % q
        fn = CLS + "::" + name
        st = m.start()
        m.call(st, name)
        ns = m.nspl["M.spl_set_%d" % q]
        c, i, j, p = m.pair_ctx(st.ctx)
        s = var("s")
        c = c.assume(mk_le(ZERO, s), mk_lt(s, ns))
        for arr, sym in (("R%d" % q, "Spl"), ("R%d_deriv" % q, "Spl'")):
            v = m.get(st, arr)
            S.eq("%s has one entry per pair and spline" % arr, st.ctx, v.len, m.pairs * ns, fn=fn)
            S.eq("%s of a pair comes from the table of its unordered element pair" % arr, c, v.arr.read(p * ns + s, c),
                 app(sym, (P(q), m.type_no(i, p), s, app("r", (p,)))), fn=fn)
        m.frame(st, name, ("R%d" % q, "R%d_deriv" % q))
        S.take(m.ex)


def scale(m, q, i):
    """the factor the atomic basis of atom i is divided by"""
    j = fresh("j")
    p = m.off(i) + j
    return ONE + mk_msum([(j, app("num_neigh", (i,), "I"))], app("Sc", (P(q), m.type_no(i, p), app("r", (p,)))))


def scaled(m, S, q):
    A = "A%d" % q
    cells = m.nlm * m.nc
    i, a = var("i"), var("a")
    for flag in (TRUE, FALSE):
        name = "compute_%s_scaled" % A
        fn = CLS + "::" + name
        st = m.start({A: m.N * cells, A + "_scaled": flag})
        m.call(st, name)
        c = st.ctx.assume(mk_le(ZERO, i), mk_lt(i, m.N), mk_le(ZERO, a), mk_lt(a, cells))
        old = app("M." + A, (i * cells + a,))
        new = m.get(st, A).arr.read(i * cells + a, c)
        S.eq("%s divided by the scale factor of its atom" % A if flag is TRUE else "%s unchanged without scaling" % A, c,
             new, old * inv(scale(m, q, i)) if flag is TRUE else old, fn=fn)
        m.frame(st, name, (A,))
        S.take(m.ex)

        # the adjoint stage: force of the pair from the scale factor, adjoint divided by the scale factor
        name = "reverse_%s_scaled" % A
        fn = CLS + "::" + name
        F = "node_forces"
        for zero in (((TRUE, FALSE) if flag is TRUE else (FALSE,)) if q else (None,)):
            st = m.start({A: m.N * cells, A + "_adj": m.N * cells, F: 3 * m.pairs, A + "_scaled": flag})
            m.call(st, name, {"zero_dxyz": zero})
            c = st.ctx.assume(mk_le(ZERO, i), mk_lt(i, m.N), mk_le(ZERO, a), mk_lt(a, cells))
            old = app("M.%s_adj" % A, (i * cells + a,))
            S.eq("%s_adj divided by the scale factor of its atom" % A if flag is TRUE else "%s_adj unchanged without scaling" % A, c,
                 m.get(st, A + "_adj").arr.read(i * cells + a, c), old * inv(scale(m, q, i)) if flag is TRUE else old, fn=fn)
            c, i_, j, p = m.pair_ctx(st.ctx)
            v = fresh("a")
            dot = mk_msum([(v, cells)], app("M.%s_adj" % A, (i * cells + v,)) * app("M." + A, (i * cells + v,)))
            for x in range(3):
                old = ZERO if zero is TRUE else app("M." + F, (3 * p + x,))
                add = dot * inv(scale(m, q, i)) * app("Sc'", (P(q), m.type_no(i, p), app("r", (p,)))) * app("xyz", (3 * p + x,)) * inv(app("r", (p,)))
                S.eq("force %d of a pair from its scale factor" % x, c, m.get(st, F).arr.read(3 * p + x, c),
                     old + add if flag is TRUE else old, fn=fn)
            m.frame(st, name, (A + "_adj", F))
            S.take(m.ex)


PROPS = {"C19": C19}
