"""Contracts of the enumerators (C17): whole-container loop invariants against recursive definitions, for all arguments.

_product        E(0) = [[]],  E(t+1)[e*a_t + i] = E(t)[e] ++ [I_t[i]]         (lexicographic: digits of e in the mixed radix a)
_permutations   P(t) = t-th permutation of 0..m-1 in lexicographic order      (std::next_permutation by its contract)
_combinations   pair (i,j), i<j, at position i*(2m-i-1)/2 + j-i-1 of m*(m-1)/2
_partitions, _two_part_partitions   see partitions() below
A rewritten enumerator these invariants do not fit is a tool limit: the bounded check of the real code decides."""
from vc.session import *
from vc.invariants import WholeInv, value_eq
from vc.values import LamArr
from vc import stdmodel

INT = ("int", 32, True)
VI = ("vec", INT)


class RecArr(LamArr):
    """specification array of a stage: fn(k) names its cells, dec() gives the defining recursion"""
    __slots__ = ("dec",)

    def __init__(self, fn, dec):
        LamArr.__init__(self, fn)
        self.dec = dec

    def decomp(self):
        return self.dec()


def is_vv(v, et=VI):
    return isinstance(v, VecVal) and v.et == et


def post(S, name, ctx, got, want, unfold, fn, inv=()):
    info = {}
    try:
        ok = isinstance(got, VecVal) and value_eq(ctx, got, want, unfold, info)
    except Unsupported as e:
        ok, info = False, {"residual": e}
    d = str(info.get("residual"))[:300] + "".join("; " + x for i in inv for x in i.log)[:600]
    if ok:
        S.fact(name, True, fn=fn)
    else:
        S.limit("%s: %s (%s)" % (fn, name, d))      # the bounded check on the real code decides
    return ok


def run(S, ex, fn, args, ctx):
    """(state, result) of one call; tool limits are recorded and give (None, None)"""
    st = State({}, ctx)
    st.throws = []
    try:
        r = ex.call_def(ex.find_function(fn), None, args, st)
    except Unsupported as e:
        S.limit("%s: %s" % (fn, str(e)[:300]))
        return None, None
    alive = [c for _, c, _ in st.throws if not c.inconsistent()]
    if alive:
        S.fact("%s does not throw" % fn, False, fn=fn, definite=False)
    return st, r


def product(S, prog):
    fn = "_product"
    ex = Executor(prog)
    d = var("d")
    a = lambda s: app("a", (s,), "I")
    npr = lambda t: app("nprod", (t,), "I")
    dig = lambda t, e, q: app("dig", (t, e, q), "I")
    I = lambda s, i: app("inp", (s, i), "I")
    c0 = Ctx([mk_le(ZERO, d)])
    c0.axioms.add("a", lambda s: [mk_le(ZERO, app("a", (s,), "I"))])
    c0.axioms.add("nprod", lambda s: [mk_le(ZERO, app("nprod", (s,), "I"))])
    inputs = VecVal(d, LamArr(lambda s: VecVal(a(s), LamArr(lambda i: I(s, i)), INT)), VI)

    def cells(tt):
        return lambda e: VecVal(tt, LamArr(lambda q: I(q, dig(tt, e, q))), INT)

    def spec(tt):
        if tt.is_const():
            return VecVal(npr(tt), LamArr(cells(tt)), VI)

        def dec():
            e, i, u = fresh("e"), fresh("i"), tt - 1
            val = VecVal(tt, LamArr(lambda q: ite(mk_lt(q, u), I(q, dig(u, e, q)), I(u, i))), INT)
            return e * a(u) + i, [mk_le(ZERO, e), mk_lt(e, npr(u)), mk_le(ZERO, i), mk_lt(i, a(u))], val
        return VecVal(npr(tt), RecArr(cells(tt), dec), VI)

    def unfold(x, c):
        if x.args[0] == "nprod":
            t = x.args[1]
            if c.prove(mk_eq(t, ZERO)):
                return ONE
            if t is not d and t.as_atom() is None and c.prove(mk_le(ONE, t)):
                return npr(t - 1) * a(t - 1)
        return None
    inv = WholeInv(lambda L, v: [spec] if is_vv(v) else [], "_product: all choices from the first t inputs, in order", unfold)
    ex.whole, ex.whole_unfold = [inv], unfold
    S.vacuity(fn, c0)
    st, r = run(S, ex, fn, [("val", inputs)], c0)
    if st is not None:
        if post(S, "_product returns every choice once, in lexicographic order", st.ctx, r, VecVal(npr(d), LamArr(cells(d)), VI), unfold, fn, [inv]):
            # the numbering e*a+i of the definition is one-to-one, onto and increasing in (e, i)
            e, i, e2, i2, n, b = [var(x) for x in ("e", "i", "e2", "i2", "n", "b")]
            c = Ctx([mk_le(ZERO, e), mk_lt(e, n), mk_le(ZERO, i), mk_lt(i, b), mk_le(ZERO, e2), mk_lt(e2, n), mk_le(ZERO, i2), mk_lt(i2, b)])
            S.holds("positions lie in the list", c, mk_and(mk_le(ZERO, e * b + i), mk_lt(e * b + i, n * b)), fn="lemma")
            S.holds("positions increase lexicographically", c.assume(mk_lt(e, e2)), mk_lt(e * b + i, e2 * b + i2), fn="lemma")
            S.holds("positions increase with the last choice", c.assume(mk_lt(i, i2)), mk_lt(e * b + i, e * b + i2), fn="lemma")
        S.take(ex)


class CaseArr(LamArr):
    """as RecArr, with several cases"""
    __slots__ = ("dec",)

    def __init__(self, fn, dec):
        LamArr.__init__(self, fn)
        self.dec = dec

    def decomps(self):
        return self.dec()


class std_contracts:
    """contracts of std::sort and std::erase_if on whole vectors, for the time of one run"""

    def __init__(self, S, ex, fn):
        self.S, self.ex, self.fn, self.log = S, ex, fn, []

    def whole(self, ex, args, st, fr, what):
        b, e = [ex.eval(x, st, fr) for x in args[:2]]
        if not (isinstance(b, PtrVal) and isinstance(e, PtrVal) and same_path(b.path, e.path)):
            raise Unsupported(what)
        v = ex.read_path(b.path, st)
        if not ex.dry and not (st.ctx.prove(mk_eq(b.off, ZERO)) and prove_eq(st.ctx, e.off, v.len)):
            raise Unsupported(what + " of a part")
        return b.path, v

    def call(self, ex, lam, vals, st):
        if not isinstance(lam, LambdaVal):
            raise Unsupported("predicate")
        s = st.copy()
        s.throws = []
        r = ex.call_def(lam.node, lam.this, [("val", x) for x in vals], s, lam.frame)
        return ex.as_bool(r)

    def sort(self, ex, n, args, st, fr):
        path, v = self.whole(ex, args, st, fr, "sort")
        if len(args) != 3:
            raise Unsupported("sort without comparison")
        lam = ex.eval(args[2], st, fr)
        i = [fresh("e") for _ in range(3)]
        c = st.ctx.assume(*[f for x in i for f in (mk_le(ZERO, x), mk_lt(x, v.len))])
        s = st.copy()
        s.ctx = c
        el = [v.arr.read(x, c) for x in i]
        lt = lambda p, q: self.call(ex, lam, [el[p], el[q]], s)
        if not ex.dry:
            ok = c.prove(mk_not(lt(0, 0))) and c.assume(lt(0, 1)).prove(mk_not(lt(1, 0))) and \
                c.assume(lt(0, 1), lt(1, 2)).prove(lt(0, 2)) and c.assume(mk_not(lt(0, 1)), mk_not(lt(1, 2))).prove(mk_not(lt(0, 2)))
            self.S.fact("std::sort is given a strict weak ordering", ok, fn=self.fn, kind="precondition", definite=False)
        name = "sorted!%d" % next(FRESH)
        ex.write_path(path, VecVal(v.len, LamArr(lambda k: v.arr.read(app(name, (k,), "I"), st.ctx)), v.et), st)
        st.ctx.axioms.add(name, lambda k: [mk_or(mk_lt(k, ZERO), mk_le(v.len, k), mk_and(mk_le(ZERO, app(name, (k,), "I")), mk_lt(app(name, (k,), "I"), v.len)))])
        self.log.append(("sort", name, v))

    def erase_if(self, ex, n, args, st, fr):
        path = ex.lval(args[0], st, fr)
        v = ex.read_path(path, st)
        lam = ex.eval(args[1], st, fr)
        e = fresh("e")
        c = st.ctx.assume(mk_le(ZERO, e), mk_lt(e, v.len))
        s = st.copy()
        s.ctx = c
        p = self.call(ex, lam, [v.arr.read(e, c)], s)
        name = "kept!%d" % next(FRESH)
        ln = simplify(mk_msum([(e, v.len)], ONE - ind(p)), st.ctx)
        pred = lambda k: XSubst({e.as_atom(): k}).b(p)
        ax = lambda k: app(name, (k,), "I")
        st.ctx.axioms.add(name, lambda k: [mk_or(mk_lt(k, ZERO), mk_le(ln, k), mk_and(mk_le(ZERO, ax(k)), mk_lt(ax(k), v.len), mk_not(pred(ax(k)))))])
        ex.write_path(path, VecVal(ln, LamArr(lambda k: v.arr.read(ax(k), st.ctx)), v.et), st)
        self.log.append(("erase_if", name, v, pred))
        return v.len - ln

    def __enter__(self):
        self.old = {k: stdmodel._FREE.get(k) for k in ("sort", "stable_sort", "erase_if")}
        stdmodel._FREE.update(sort=self.sort, stable_sort=self.sort, erase_if=self.erase_if)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            if f is None:
                stdmodel._FREE.pop(k)
            else:
                stdmodel._FREE[k] = f
        self.S.trusted.add("std::sort permutes its range; std::erase_if removes exactly the elements that satisfy the predicate")


def partitions(S, prog, two=False):
    """Part(1) = [[{v0}]];  Part(u+1): for each partition p of Part(u), in order: p with the new set {v_u}, then p with v_u added to
    each of its sets.  two: only partitions into at most two sets are kept; the only partition into one set is the last of the list"""
    fn = "_two_part_partitions" if two else "_partitions"
    ex = Executor(prog)
    m = var("m")
    v = lambda k: app("v", (k,), "I")
    NP = lambda u: app("npart", (u,), "I")                # partitions of the first u elements
    if two:
        NB = lambda u, e: P(2) - ind(mk_eq(e, NP(u) - 1))
    else:
        NB = lambda u, e: app("nblock", (u, e), "I")      # sets of partition e
    BL = lambda u, e, b: app("blen", (u, e, b), "I")
    PC = lambda u, e, b, q: app("pel", (u, e, b, q), "I")
    c0 = Ctx([mk_le(ONE, m)])
    c0.axioms.add("npart", lambda *a: [mk_le(ONE, app("npart", a, "I"))])
    for nm in ("nblock", "blen"):
        c0.axioms.add(nm, lambda *a, nm=nm: [mk_le(ZERO, app(nm, a, "I"))])
    vec = VecVal(m, LamArr(v), INT)
    block = lambda u, e: lambda b: VecVal(BL(u, e, b), LamArr(lambda q: PC(u, e, b, q)), INT)
    part = lambda u: lambda e: VecVal(NB(u, e), LamArr(block(u, e)), VI)
    VVI = ("vec", VI)

    def off(u, e):
        x = fresh("x")
        return e * 2 if two else mk_msum([(x, e)], NB(u, x)) + e

    def new(w, e, nb):
        """partition e of the first w elements with the new set {v_w}"""
        return VecVal(nb + 1, LamArr(lambda b: VecVal(ite(mk_lt(b, nb), BL(w, e, b), ONE), LamArr(
            lambda q: ite(mk_lt(b, nb), PC(w, e, b, q), v(w))), INT)), VI)

    def ext(w, e, nb, j):
        """partition e with v_w added to set j"""
        return VecVal(nb, LamArr(lambda b: VecVal(BL(w, e, b) + ite(mk_eq(b, j), ONE, ZERO), LamArr(
            lambda q: ite(mk_and(mk_eq(b, j), mk_eq(q, BL(w, e, b))), v(w), PC(w, e, b, q))), INT)), VI)

    def spec(tt):
        u = tt + 1                                        # number of elements placed
        if tt.is_const():
            return VecVal(ONE, ListArr((VecVal(ONE, ListArr((VecVal(ONE, ListArr((v(ZERO),)), INT),)), VI),)), VVI)
        w = u - 1

        def dec():
            e, j = fresh("e"), fresh("j")
            r = [mk_le(ZERO, e), mk_lt(e, NP(w))]
            if two:
                l = NP(w) - 1
                return [(e * 2 + j, [mk_le(ZERO, e), mk_lt(e, l), mk_le(ZERO, j), mk_le(j, ONE)], ext(w, e, P(2), j)),
                        (e * 2, [mk_eq(e, l)], new(w, e, ONE)), (e * 2 + 1, [mk_eq(e, l)], ext(w, e, ONE, ZERO))]
            return [(off(w, e), r, new(w, e, NB(w, e))),
                    (off(w, e) + 1 + j, r + [mk_le(ZERO, j), mk_lt(j, NB(w, e))], ext(w, e, NB(w, e), j))]
        return VecVal(NP(u), CaseArr(part(u), dec), VVI)

    def unfold(x, c):
        if x.args[0] == "npart":
            u = x.args[1]
            if u is ONE:
                return ONE
            if u is not m and u.as_atom() is None and not u.is_const() and c.prove(mk_le(P(2), u)):
                return NP(u - 1) * 2 if two else off(u - 1, NP(u - 1))
        return None
    inv = WholeInv(lambda L, x: [spec] if is_vv(x, VVI) else [],
                   "%s: all partitions%s of the first t+1 elements" % (fn, " into at most two sets" if two else ""), unfold)
    ex.whole, ex.whole_unfold = [inv], unfold
    S.vacuity(fn, c0)
    none = VecVal(ZERO, LamArr(v), INT)
    with std_contracts(S, ex, fn):
        st, r = run(S, ex, fn, [("val", none)], Ctx([]))
    if st is not None:
        post(S, "%s of nothing is empty" % fn, st.ctx, r, VecVal(ZERO, LamArr(part(ZERO)), VVI), None, fn)
    with std_contracts(S, ex, fn) as sc:
        st, r = run(S, ex, fn, [("val", vec)], c0)
    if st is None:
        return
    # the result lists Part(m), permuted (and without the partition into one set)
    l = NP(m)
    at = lambda k: k
    n = l
    for step in sc.log:
        nm, f = step[1], at
        if step[0] == "erase_if":
            n = n - 1
        at = (lambda nm, f: lambda k: f(app(nm, (k,), "I")))(nm, at)
    kinds = [x[0] for x in sc.log]
    if kinds not in ((["erase_if", "sort"],) if two else (["sort"], [])):
        S.limit("%s: unexpected use of standard algorithms (%s)" % (fn, ", ".join(kinds)))
        return
    ok = post(S, "%s returns the partitions of the definition, each once" % fn, st.ctx, r, VecVal(n, LamArr(lambda k: part(m)(at(k))), VVI), unfold, fn, [inv])
    if two and ok:
        e = var("e")
        c = st.ctx.assume(mk_le(ZERO, e), mk_lt(e, l))
        p = sc.log[0][3](e)
        S.holds("exactly the partition into one set is removed", c.assume(p), mk_eq(e, l - 1), fn=fn)
        S.holds("the partition into one set is removed", c.assume(mk_eq(e, l - 1)), p, fn=fn)
    # the numbering of the definition is one-to-one and onto: partition e with choice c (new set or set c-1)
    if ok:
        e, x, w = var("e"), var("x"), var("w")
        c = c0.assume(mk_le(ZERO, e), mk_lt(e, NP(w)), mk_le(ZERO, x), mk_le(x, NB(w, e)) if not two else mk_le(x, ONE))
        S.holds("positions of partition e precede those of partition e+1", c, mk_lt(off(w, e) + x, off(w, e + 1)), fn="lemma")
        S.trusted.add("set partitions of a sequence correspond one-to-one to the choices (new set, or one of the present sets) made element by element")
    S.take(ex)


def two_part(S, prog):
    partitions(S, prog, True)


def product_callers(S, prog):
    """_product_repeat, _generate_indices: _product (by its contract) of copies of one list"""
    for fn, args, n, ent in (
            ("_product_repeat", lambda v, q: [("val", v), ("val", q)], lambda v: v.len, lambda k: app("v", (k,), "I")),
            ("_generate_indices", lambda v, q: [("val", q), ("val", v.len)], lambda v: v.len, lambda k: k)):
        ex = Executor(prog)
        m, q = var("m"), var("q")
        c0 = Ctx([mk_le(ZERO, m), mk_le(ZERO, q)])
        vec = VecVal(m, LamArr(lambda k: app("v", (k,), "I")), INT)
        calls = []

        def prod(ex_, st, this, av, calls=calls):
            x = av[0][1] if av[0][0] == "val" else ex_.read_path(av[0][1], st)
            if not ex_.dry:
                calls.append((x, st.ctx))
            return make_sym(("vec", VI), "prod", (), prog)
        ex.contracts["_product"] = prod
        st, r = run(S, ex, fn, args(vec, q), c0)
        if st is None:
            continue
        if len(calls) != 1:
            S.limit("%s: %d calls of _product" % (fn, len(calls)))
            continue
        post(S, "%s passes the list to _product as often as asked" % fn, calls[0][1], calls[0][0],
             VecVal(q, LamArr(lambda s: VecVal(m, LamArr(ent), INT)), VI), None, fn)
        post(S, "%s returns what _product returns" % fn, st.ctx, r, make_sym(("vec", VI), "prod", (), prog), None, fn)
        S.take(ex)


def combinations(S, prog):
    fn = "_combinations"
    ex = Executor(prog)
    m = var("m")
    c0 = Ctx([mk_le(ZERO, m)])
    v = lambda k: app("v", (k,), "I")
    vec = VecVal(m, LamArr(v), INT)
    st, r = run(S, ex, fn, [("val", vec), ("val", P(2))], c0)
    if st is None:
        return
    half = Fraction(1, 2)
    pos = lambda i, j: i * (m * 2 - i - 1) * half + j - i - 1

    def dec():
        i, j = fresh("i"), fresh("j")
        return pos(i, i + 1 + j), [mk_le(ZERO, i), mk_le(ZERO, j), mk_lt(i + 1 + j, m)], VecVal(P(2), ListArr((v(i), v(i + 1 + j))), INT)
    want = VecVal(m * (m - 1) * half, RecArr(lambda k: VecVal(P(2), LamArr(lambda q: app("comb", (k, q), "I")), INT), dec), VI)
    if post(S, "_combinations returns the pair (i,j) at its lexicographic position, for all i<j", st.ctx, r, want, None, fn):
        i, j, i2, j2 = [var(x) for x in ("i", "j", "i2", "j2")]
        c = Ctx([mk_le(ZERO, i), mk_lt(i, j), mk_lt(j, m), mk_le(ZERO, i2), mk_lt(i2, j2), mk_lt(j2, m)])
        S.holds("pair positions lie in the list", c,
                mk_and(mk_le(ZERO, pos(i, j)), mk_lt(pos(i, j), m * (m - 1) * half)), fn="lemma")
        S.holds("pair positions increase with j", c.assume(mk_lt(j, j2)), mk_lt(pos(i, j), pos(i, j2)), fn="lemma")
        S.holds("row i ends where row i+1 begins", c, mk_eq(pos(i, m), pos(i + 1, i + 2)), fn="lemma")
    S.take(ex)


def permutations(S, prog):
    fn = "_permutations"
    ex = Executor(prog)
    m = var("m")
    c0 = Ctx([mk_le(ZERO, m)])
    fact = lambda k: app("fact", (k,), "I")
    c0.axioms.add("fact", lambda k: [mk_le(ONE, app("fact", (k,), "I"))])
    perm = lambda t, q: app("perm", (t, q), "I")          # entry q of permutation number t of 0..m-1
    vperm = lambda t: VecVal(m, LamArr(lambda q: perm(t, q)), INT)

    def unfold(x, c):
        if x.args[0] == "perm" and c.prove(mk_eq(x.args[1], ZERO)):
            return x.args[2]                              # the first permutation is the identity
        return None

    def next_perm(ex_, n, args, st, fr):
        b, e = [ex_.eval(x, st, fr) for x in args[:2]]
        if len(args) != 2 or not (isinstance(b, PtrVal) and isinstance(e, PtrVal) and same_path(b.path, e.path)):
            raise Unsupported("next_permutation")
        v = ex_.read_path(b.path, st)
        if ex_.loc or ex_.dry:
            more = bapp("more~%d" % next(FRESH), ())
            ex_.write_path(b.path, VecVal(v.len, SymArr("perm~%d" % next(FRESH), (), INT, prog), INT), st)
            return more
        if not (st.ctx.prove(mk_eq(b.off, ZERO)) and prove_eq(st.ctx, e.off, m) and prove_eq(st.ctx, v.len, m)):
            raise Unsupported("next_permutation of a part")
        q = fresh("q")
        x = v.arr.read(q, st.ctx)
        at = x.as_atom() if isinstance(x, Poly) else None
        if at is not None and at.kind == "app" and at.args[0] == "perm" and at.args[2] is q:
            t = at.args[1]
        elif value_eq(st.ctx, v, vperm(ZERO), unfold):
            t = ZERO
        else:
            raise Unsupported("next_permutation of an unknown sequence")
        more = mk_lt(t + 1, fact(m))
        ex_.write_path(b.path, VecVal(m, LamArr(lambda k: perm(ite(more, t + 1, ZERO), k)), INT), st)
        return more
    old = stdmodel._FREE.get("next_permutation")
    stdmodel._FREE["next_permutation"] = next_perm
    try:
        spec = lambda tt: VecVal(tt + 1, LamArr(lambda e: vperm(e)), VI)
        inv = WholeInv(lambda L, v: [spec] if is_vv(v) else [vperm] if is_vv(v, INT) else [], "_permutations: the first t+1 permutations, in order", unfold)
        ex.whole, ex.whole_unfold = [inv], unfold
        S.vacuity(fn, c0)
        st, r = run(S, ex, fn, [("val", m)], c0)
    finally:
        stdmodel._FREE.pop("next_permutation")
        if old:
            stdmodel._FREE["next_permutation"] = old
    if st is not None:
        post(S, "_permutations returns all m! permutations, in lexicographic order", st.ctx, r, VecVal(fact(m), LamArr(vperm), VI), unfold, fn, [inv])
        S.trusted.add("std::next_permutation steps through the permutations of 0..m-1 in lexicographic order; there are m!")
        S.take(ex)
