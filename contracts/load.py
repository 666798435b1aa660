"""Contract of the constructor of MACE and load_from_json (C25): the loaded model is the one in the file.

The file is any JSON object: every entry is a family of symbols "file.<key>"(indices); get<T>() reads it, maps are keyed by the
decimal text of an integer.  Well-formedness used (sizes only): values and derivatives of a table list come in equal numbers,
the three lists Phi1_l, Phi1_l1, Phi1_l2 have one length, num_elements is the number of atomic_numbers."""
from vc.session import *
from vc.invariants import *

DBL = ("double",)
INT = ("int", 32, True)
CLS = "MACE"


def sym(key, t, prog, args=()):
    return make_sym(t, "file." + key, tuple(args), prog)


def vec(t):
    return ("vec", t)


CTORS = {"CubicSplineSet": (DBL, vec(vec(DBL)), vec(vec(DBL))), "CubicSpline": (DBL, vec(DBL), vec(DBL)),
         "MultivariatePolynomial": (INT, vec(DBL), vec(vec(INT))), "MultilayerPerceptron": (vec(INT), vec(vec(DBL)), DBL),
         "ZBL": (DBL, DBL, vec(DBL), vec(DBL), INT)}


class Load:
    def __init__(self, S, flags):
        self.S = S
        self.prog = prog = S.prog("mace.cpp")
        self.ex = ex = Executor(prog)
        for cls, ts in CTORS.items():
            def con(ex_, st, args, cls=cls, ts=ts):
                if not args:
                    return Opaque("default-constructed " + cls)
                if len(args) != len(ts):
                    raise Unsupported("construction of %s from %d arguments" % (cls, len(args)))
                return StructVal(cls, {str(i): a.get(t, prog) if isinstance(a, JsonVal) else a for i, (a, t) in enumerate(zip(args, ts))})
            ex.contracts["ctor:" + cls] = con
        ctx = Ctx([])
        ax = ctx.axioms
        facts = []
        L = lambda key, *a: app("file.%s.len" % key, a, "I")
        for k in ("radial_spline_values_0", "radial_spline_values_1", "A0_spline_values", "A1_spline_values"):
            facts += [mk_eq(L(k), L(k.replace("values", "derivs"))), mk_le(ZERO, L(k))]
        facts += [mk_eq(L("Phi1_l"), L("Phi1_l1")), mk_eq(L("Phi1_l"), L("Phi1_l2")), mk_le(ZERO, L("Phi1_l")), mk_le(ZERO, L("atomic_numbers")),
                  mk_eq(app("file.num_elements", (), "I"), L("atomic_numbers")),
                  mk_le(ZERO, app("file.num_channels", (), "I")), mk_le(ZERO, app("file.l_max", (), "I")), mk_le(ZERO, app("file.L_max", (), "I"))]
        self.ctx = ctx.assume(*facts)
        for k, v in flags.items():
            b = bapp("file." + k, ())
            self.ctx = self.ctx.assume(b if v else mk_not(b))

    def run(self):
        st = State({}, self.ctx)
        st.throws = []
        obj = self.ex.construct(CLS, [("val", StrVal("filename"))], st)
        self.st = st
        for _, c, _ in st.throws:
            self.S.holds("loading does not throw", c, FALSE, fn=CLS + "::load_from_json")
        return obj


PLAIN = dict(num_elements=INT, num_channels=INT, r_cut=DBL, l_max=INT, L_max=INT, atomic_numbers=vec(INT), atomic_energies=vec(DBL),
             H0_weights=vec(DBL), A0_weights=vec(vec(vec(DBL))), H1_weights=vec(DBL), Phi1_l=vec(INT), Phi1_l1=vec(INT), Phi1_l2=vec(INT),
             Phi1_lme=vec(INT), Phi1_clebsch_gordan=vec(DBL), Phi1_lelm1lm2=vec(INT), A1_weights=vec(vec(DBL)),
             H2_weights_for_H1=vec(vec(DBL)), H2_weights_for_M1=vec(DBL), readout_1_weights=vec(DBL))


def same(S, name, ctx, a, b):
    """a (from the code) equals b: all lengths and cells"""
    fn = CLS + "::load_from_json"
    if isinstance(a, Opaque) or a is None:
        S.fact(name, False, fn=fn, definite=True)
        return
    if isinstance(b, VecVal) and isinstance(a, VecVal):
        S.eq(name + ": size", ctx, a.len, b.len, fn=fn)
        i = fresh("e")
        c = ctx.assume(mk_le(ZERO, i), mk_lt(i, b.len))
        same(S, name + ": entries", c, a.arr.read(i, c), b.arr.read(i, c))
    elif isinstance(b, StructVal) and isinstance(a, StructVal):
        for k in b.f:
            same(S, "%s, argument %s" % (name, k), ctx, a.f[k], b.f[k])
    elif isinstance(b, Poly):
        S.eq(name, ctx, a, b, fn=fn)
    else:
        raise Unsupported("comparison of %r" % (a,))


def one(S, flags):
    m = Load(S, flags)
    S.vacuity("model file", m.ctx)
    o = m.run()
    c, prog = m.st.ctx, m.prog
    f = o.f
    fn = CLS + "::load_from_json"
    for k, t in PLAIN.items():
        same(S, "%s is the file's %s" % (k, k), c, f[k], sym(k, t, prog))
    lm, LM = [(app("file." + k, (), "I") + 1) ** 2 for k in ("l_max", "L_max")]
    nc = app("file.num_channels", (), "I")
    S.eq("num_lm is (l_max+1)^2", c, f["num_lm"], lm, fn=fn)
    S.eq("num_LM is (L_max+1)^2", c, f["num_LM"], LM, fn=fn)
    v = fresh("p")
    nl = app("file.Phi1_l.len", (), "I")
    S.eq("num_lme counts the components of the paths", c, f["num_lme"], mk_msum([(v, nl)], 2 * app("file.Phi1_l", (v,), "I") + 1), fn=fn)
    S.eq("num_lelm1lm2 counts the component pairs of the paths", c, f["num_lelm1lm2"],
         mk_msum([(v, nl)], (2 * app("file.Phi1_l1", (v,), "I") + 1) * (2 * app("file.Phi1_l2", (v,), "I") + 1)), fn=fn)
    for k in ("has_zbl", "A0_scaled", "A1_scaled"):
        S.holds("%s is the file's %s" % (k, k), c, f[k] if flags[k] else mk_not(f[k]), fn=fn)
    if flags["has_zbl"]:
        keys = (("zbl_a_exp", DBL), ("zbl_a_prefactor", DBL), ("zbl_c", vec(DBL)), ("zbl_covalent_radii", vec(DBL)), ("zbl_p", INT))
        same(S, "zbl is built from the file's parameters", c, f["zbl"], StructVal("ZBL", {str(i): sym(k, t, prog) for i, (k, t) in enumerate(keys)}))
    i = fresh("i")

    def tables(field, cls, h, vals, ders, t):
        n = app("file.%s.len" % vals, (), "I")
        S.eq("%s: one table per entry of %s" % (field, vals), c, f[field].len, n, fn=fn)
        ci = c.assume(mk_le(ZERO, i), mk_lt(i, n))
        same(S, "%s: table i is built from %s[i], %s[i]" % (field, vals, ders), ci, f[field].arr.read(i, ci),
             StructVal(cls, {"0": sym(h, DBL, prog), "1": sym(vals, t, prog, (i,)), "2": sym(ders, t, prog, (i,))}))
    for q in "01":
        tables("spl_set_" + q, "CubicSplineSet", "radial_spline_h", "radial_spline_values_" + q, "radial_spline_derivs_" + q, vec(vec(DBL)))
        if flags["A%s_scaled" % q]:
            tables("A%s_splines" % q, "CubicSpline", "A%s_spline_h" % q, "A%s_spline_values" % q, "A%s_spline_derivs" % q, vec(DBL))
    ne = app("file.atomic_numbers.len", (), "I")
    a, l, k = fresh("a"), fresh("l"), fresh("k")
    S.eq("P0: one polynomial per element, component and channel", c, f["P0"].len, ne * LM * nc, fn=fn)
    c0 = c.assume(mk_le(ZERO, a), mk_lt(a, ne), mk_le(ZERO, l), mk_lt(l, LM), mk_le(ZERO, k), mk_lt(k, nc))
    same(S, "P0 of element a, component l, channel k", c0, f["P0"].arr.read((a * LM + l) * nc + k, c0),
         StructVal("MultivariatePolynomial", {"0": lm, "1": sym("M0_weights", vec(DBL), prog, (a, l, k)), "2": sym("M0_monomials", vec(vec(INT)), prog, (l,))}))
    S.eq("P1: one polynomial per element and channel", c, f["P1"].len, ne * nc, fn=fn)
    c1 = c.assume(mk_le(ZERO, a), mk_lt(a, ne), mk_le(ZERO, k), mk_lt(k, nc))
    same(S, "P1 of element a, channel k", c1, f["P1"].arr.read(a * nc + k, c1),
         StructVal("MultivariatePolynomial", {"0": lm, "1": sym("M1_weights", vec(DBL), prog, (a, k)), "2": sym("M1_monomials", vec(vec(INT)), prog)}))
    r2 = f["readout_2"]
    shape = VecVal(P(3), ListArr((nc, P(16), ONE)), INT)
    W = [sym("readout_2_weights_%d" % q, vec(DBL), prog) for q in (1, 2)]
    if isinstance(r2, StructVal):
        for q, x in enumerate((nc, P(16), ONE)):
            same(S, "readout_2: width of layer %d" % q, c, r2.f["0"].arr.read(P(q), c), x)
        S.eq("readout_2: three layers", c, r2.f["0"].len, P(3), fn=fn)
        S.eq("readout_2: two weight arrays", c, r2.f["1"].len, P(2), fn=fn)
        for q in (0, 1):
            same(S, "readout_2: weights of layer %d" % (q + 1), c, r2.f["1"].arr.read(P(q), c), W[q])
        same(S, "readout_2: scale factor", c, r2.f["2"], sym("readout_2_scale_factor", DBL, prog))
    else:
        same(S, "readout_2", c, r2, StructVal("MultilayerPerceptron", {"0": shape}))
    S.take(m.ex)


def C25(S):
    S.trusted.add("nlohmann::json: operator[] and get<T>() return the file's entry converted to T; maps keyed by decimal text")
    S.trusted.add("the constructors of the splines, polynomials, perceptron and ZBL store what they are given (C01, C04, C05, C09, C13)")
    for q in range(2):
        b = q == 1
        one(S, dict(has_zbl=b, A0_scaled=b, A1_scaled=b))
    one(S, dict(has_zbl=False, A0_scaled=True, A1_scaled=False))
    one(S, dict(has_zbl=True, A0_scaled=False, A1_scaled=True))


PROPS = {"C25": C25}
