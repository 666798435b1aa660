"""Contracts of the combinatorial tools (C17).

Under contract (all arguments): _binomial_coefficient (induction on n against n!/(k!(n-k)!)), _sum, the rejection of k != 2 by
_combinations; the enumerators: contracts/enumerators.py."""
from vc.session import *
from contracts import enumerators as enum

INT = ("int", 32, True)


def fact(m):
    return app("fact", (m,))


def binom(n, k):
    return ite(mk_and(mk_le(ZERO, k), mk_le(k, n)), fact(n) * inv(fact(k)) * inv(fact(n - k)), ZERO)


def C17(S):
    prog = S.prog("tools.cpp")
    ex = Executor(prog)
    n, k = var("n"), var("k")
    ctx = Ctx([])
    ctx.axioms.add("fact", lambda m: [mk_lt(ZERO, app("fact", (m,)))])

    def unfold(a, c):
        if a.args[0] == "binom":
            return binom(a.args[1], a.args[2])
        if a.args[0] != "fact":
            return None
        m = a.args[1]
        if c.prove(mk_eq(m, ZERO)):
            return ONE
        if m is n or m is k or m is n - k:
            if c.prove(mk_le(ONE, m)):
                return m * fact(m - 1)
        return None
    # ---- binomial coefficient, by induction on n
    fn = "_binomial_coefficient"

    def self_call(ex_, st, this, args):
        a, b = [x[1] if x[0] == "val" else ex_.read_path(x[1], st) for x in args]
        ex_.oblige("termination", mk_and(mk_le(ZERO, a), mk_lt(a, n)), "recursive call with smaller n", st)
        return app("binom", (a, b), "I")            # an int: the value of binom(a, b), by the induction hypothesis
    ex.contracts[fn] = self_call
    st = State({}, ctx)
    st.throws = []
    S.vacuity(fn, ctx)
    r = ex.call_def(ex.find_function(fn), None, [("val", n), ("val", k)], st)
    S.fact("%s does not throw" % fn, not st.throws, fn=fn, definite=False)
    for nm, cs in (("k < 0", [mk_lt(k, ZERO)]), ("k > n", [mk_lt(n, k)]), ("k = 0", [mk_eq(k, ZERO), mk_le(ZERO, n)]),
                   ("k = n", [mk_eq(k, n), mk_le(ONE, n)]), ("0 < k < n", [mk_lt(ZERO, k), mk_lt(k, n)])):
        c = st.ctx.assume(*cs)
        S.eq("binomial coefficient is n!/(k!(n-k)!) or 0, %s" % nm, c, r, binom(n, k), unfold=unfold, fn=fn)
    S.take(ex)
    vec = make_sym(("vec", INT), "v", (), prog)
    m = var("m")
    vec = VecVal(m, vec.arr, vec.et)
    c0 = ctx.assume(mk_le(ZERO, m))
    st = State({}, c0)
    st.throws = []
    v = fresh("i")
    S.eq("_sum is the sum of the entries", c0, ex.call_def(ex.find_function("_sum"), None, [("val", vec)], st),
         mk_msum([(v, m)], app("v", (v,), "I")), fn="_sum")
    S.take(ex)
    # ---- combinations of other sizes are rejected
    for nm, cond, want in (("k != 2 is rejected", mk_not(mk_eq(k, P(2))), True), ("k = 2 is accepted", mk_eq(k, P(2)), False)):
        st = State({}, c0.assume(cond))
        st.throws = []
        ex.call_def(ex.find_function("_combinations"), None, [("val", vec), ("val", k)], st)
        alive = not st.ctx.inconsistent()
        ok = (not alive and bool(st.throws)) if want else all(c.inconsistent() for _, c, _ in st.throws)
        S.fact("_combinations: " + nm, ok, "throws %d, returns %s" % (len(st.throws), alive), fn="_combinations", definite=False)
        S.take(ex)
    # ---- the enumerators
    for f in (enum.combinations, enum.product, enum.product_callers, enum.permutations, enum.partitions, enum.two_part):
        k = len(S.limits)
        f(S, prog)
        if len(S.limits) > k:
            S.level = "other"
            S.bounded_parts.append("%s: out of reach in this form; real code run exhaustively for small arguments (up to 9 elements), random beyond" % f.__name__)


PROPS = {"C17": C17}
