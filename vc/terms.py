"""Term algebra of the verifier.

Numeric terms (mathematical integers and reals) are canonical Laurent polynomials (`Poly`)
with rational coefficients over hash-consed `Atom`s.  Booleans are hash-consed `B` terms.
Nothing in this module knows about C++.
"""
from fractions import Fraction
import itertools

_F0, _F1 = Fraction(0), Fraction(1)


class Atom:
    __slots__ = ("kind", "args", "sort", "id", "fv", "height", "_key", "apps")
    _tab = {}
    _n = itertools.count()

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _fv_of(x):
    if isinstance(x, (Atom, Poly, B)):
        return x.fv
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= _fv_of(y)
        return s
    return frozenset()


def _ht_of(x):
    if isinstance(x, (Atom, Poly, B)):
        return x.height
    if isinstance(x, tuple):
        return max([_ht_of(y) for y in x], default=0)
    return 0


def mk_atom(kind, args, sort):
    k = (kind, args, sort)
    a = Atom._tab.get(k)
    if a is None:
        a = Atom.__new__(Atom)
        a.kind, a.args, a.sort = kind, args, sort
        a.id = next(Atom._n)
        a._key = None
        if kind == "var":
            a.fv = frozenset([a])
            a.height = 0
        elif kind in ("msum", "mprod"):
            # args = (binders ((name, hi), ...), body); binder names '#n'
            fv, ht = frozenset(), 0
            for nm, hi in args[0]:
                fv |= hi.fv
                ht = max(ht, hi.height)
            fv |= args[1].fv
            ht = max(ht, args[1].height)
            bound = frozenset(bvar(nm) for nm, _ in args[0])
            a.fv = fv - bound
            a.height = max([ht] + [nm for nm, _ in args[0]])
        else:
            a.fv = _fv_of(args)
            a.height = _ht_of(args)
        Atom._tab[k] = a
    return a


def bvar(n):
    return mk_atom("var", ("#%d" % n,), "I")


class Poly:
    __slots__ = ("t", "fv", "height", "_h", "_key")
    _tab = {}

    def __new__(cls, terms):
        # terms: dict mono -> Fraction, mono: tuple of (Atom, int) sorted by atom id
        key = frozenset((m, c) for m, c in terms.items() if c != 0)
        p = cls._tab.get(key)
        if p is None:
            p = object.__new__(cls)
            p.t = {m: c for m, c in terms.items() if c != 0}
            fv, ht = frozenset(), 0
            for m in p.t:
                for a, _ in m:
                    fv |= a.fv
                    ht = max(ht, a.height)
            p.fv, p.height = fv, ht
            p._h = hash(key)
            p._key = None
            cls._tab[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # --- inspection
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), _F0)

    def is_zero(self):
        return not self.t

    def is_int(self):
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != "I" or e < 0:
                    return False
        return True

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def single(self):
        """(mono, coeff) when there is exactly one monomial"""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def as_atom(self):
        s = self.single()
        if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1:
            return s[0][0][0]
        return None

    # --- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, _F0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            c = self.const()
            if c == 1:
                return o
            return Poly({m: c * k for m, k in o.t.items()})
        if o.is_const():
            return o * self
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                d[m] = d.get(m, _F0) + c1 * c2
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __repr__(self):
        return show(self)

    # comparisons build booleans
    def eq(self, o):
        return mk_eq(self, P(o))

    def lt(self, o):
        return mk_lt(self, P(o))

    def le(self, o):
        return mk_le(self, P(o))

    def gt(self, o):
        return mk_lt(P(o), self)

    def ge(self, o):
        return mk_le(P(o), self)


_mm_cache = {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        out = []
        for a, e in d.items():
            if e == 0:
                continue
            if a.kind == "ind" and e > 0:
                e = 1
            out.append((a, e))
        out.sort(key=lambda x: x[0].id)
        r = tuple(out)
        _mm_cache[k] = r
    return r


ZERO = Poly({})
ONE = Poly({(): _F1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): _F1})
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x})
    raise TypeError("not numeric: %r" % (x,))


_fresh = itertools.count()


def var(name, sort="I"):
    return P(mk_atom("var", (name,), sort))


def fresh(prefix="v", sort="I"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def app(f, args=(), sort="R"):
    return P(mk_atom("app", (f,) + tuple(P(a) for a in args), sort))


def inv(p):
    """1/p.  Algebra only: x*inv(x)=1; the executor emits an obligation that p != 0."""
    s = p.single()
    if s is not None:
        m, c = s
        return Poly({tuple((a, -e) for a, e in m): 1 / c})
    if p.is_zero():
        return app("div_by_zero", (), "R")
    # common monomial factor and leading coefficient
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) if e > 0 else (min(e, d.get(a, 0))) for a, e in common.items()
                      if (a in d)}
    # only pull out factors present in every monomial with the same sign of exponent
    cm = []
    for a, e in (common or {}).items():
        es = [dict(m).get(a, 0) for m in p.t]
        if all(x > 0 for x in es):
            cm.append((a, min(es)))
        elif all(x < 0 for x in es):
            cm.append((a, max(es)))
    # also clear remaining negative exponents of atoms (denominators inside)
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        if not any(x is a for x, _ in cm):
            cm.append((a, e))
        else:
            cm = [(x, (e if x is a else ex)) for x, ex in cm]
    cm = tuple(sorted(cm, key=lambda x: x[0].id))
    q = p
    if cm:
        q = p * Poly({tuple((a, -e) for a, e in cm): _F1})
    s = q.single()
    if s is not None:
        return inv(q) * Poly({tuple((a, -e) for a, e in cm): _F1})
    lead = min(q.t, key=lambda m: mono_key(m))
    c = q.t[lead]
    q = q * (1 / c)
    pa = mk_atom("polyatom", (q,), "R")
    r = Poly({((pa, -1),): 1 / c})
    if cm:
        r = r * Poly({tuple((a, -e) for a, e in cm): _F1})
    return r


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("kind", "args", "fv", "height", "id")
    _tab = {}
    _n = itertools.count()

    def __new__(cls, kind, args):
        k = (kind, args)
        b = cls._tab.get(k)
        if b is None:
            b = object.__new__(cls)
            b.kind, b.args = kind, args
            b.fv = _fv_of(args)
            b.height = _ht_of(args)
            b.id = next(cls._n)
            cls._tab[k] = b
        return b

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_b(self)


TRUE, FALSE = B("const", (True,)), B("const", (False,))


def mk_bool(b):
    return TRUE if b else FALSE


def _norm_scale(p):
    """positive scaling so that coefficients are coprime integers"""
    from math import gcd
    if p.is_zero():
        return p
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, int(c * den))
    return p * Fraction(den, g)


def _by_ind(p, test):
    """comparison of c0 + c1*ind(b) with zero: TRUE, FALSE, b or not b (None: not of this form)"""
    if len(p.t) > 2:
        return None
    at, c1 = None, None
    for m, c in p.t.items():
        if m == ():
            continue
        if at is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "ind":
            return None
        at, c1 = m[0][0], c
    if at is None:
        return None
    c0 = p.const()
    off, on = test(c0), test(c0 + c1)
    if off and on:
        return TRUE
    if not off and not on:
        return FALSE
    return at.args[0] if on else mk_not(at.args[0])


def mk_le0(p):  # p <= 0
    if p.is_const():
        return mk_bool(p.const() <= 0)
    r = _by_ind(p, lambda c: c <= 0)
    if r is not None:
        return r
    intp = p.is_int() or _norm_int(p)
    p2 = _norm_scale_mono(p)
    if intp and _norm_int(p2):
        # tighten: coefficients of non-constant part divided by gcd, floor the constant
        from math import gcd
        g = 0
        for m, c in p2.t.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            c0 = p2.const()
            import math
            rest = (p2 - P(c0)) * Fraction(1, g)
            # g*rest + c0 <= 0  <=> rest <= floor(-c0/g)
            p2 = rest - P(Fraction(math.floor(-c0 / g)))
        return B("le0", (p2,))
    return B("le0", (p2,))


def _norm_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.sort != "I" or e < 0:
                return False
    return True


def _norm_scale_mono(p):
    return _norm_scale(p)


def int_sorted(p):
    for m, c in p.t.items():
        for a, e in m:
            if a.sort != "I" or e < 0:
                return False
    return True


def mk_lt0(p):  # p < 0
    if p.is_const():
        return mk_bool(p.const() < 0)
    r = _by_ind(p, lambda c: c < 0)
    if r is not None:
        return r
    if int_sorted(p):
        p2 = _norm_scale(p)
        return mk_le0(p2 + 1)
    return B("lt0", (_norm_scale(p),))


def mk_eq0(p):
    if p.is_const():
        return mk_bool(p.const() == 0)
    r = _by_ind(p, lambda c: c == 0)
    if r is not None:
        return r
    p = _norm_scale(p)
    lead = min(p.t, key=mono_key)
    if p.t[lead] < 0:
        p = -p
    if int_sorted(p):
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1 and p.const() % g != 0:
            return FALSE
    return B("eq0", (p,))


def mk_eq(a, b):
    return mk_eq0(a - b)


def mk_le(a, b):
    return mk_le0(P(a) - P(b))


def mk_lt(a, b):
    return mk_lt0(P(a) - P(b))


def mk_not(b):
    if b.kind == "const":
        return mk_bool(not b.args[0])
    if b.kind == "not":
        return b.args[0]
    if b.kind == "le0":
        return mk_lt0(-b.args[0])
    if b.kind == "lt0":
        return mk_le0(-b.args[0])
    if b.kind == "and":
        return mk_or(*[mk_not(x) for x in b.args])
    if b.kind == "or":
        return mk_and(*[mk_not(x) for x in b.args])
    return B("not", (b,))


def mk_and(*bs):
    out = []
    for b in bs:
        if b.kind == "const":
            if not b.args[0]:
                return FALSE
            continue
        if b.kind == "and":
            for x in b.args:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        if mk_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return B("and", tuple(out))


def mk_or(*bs):
    out = []
    for b in bs:
        if b.kind == "const":
            if b.args[0]:
                return TRUE
            continue
        if b.kind == "or":
            for x in b.args:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        n = mk_not(x)
        if n in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return B("or", tuple(out))


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


def bapp(f, args=()):
    return B("bapp", (f,) + tuple(P(a) for a in args))


def mk_biff(a, b):
    return mk_and(mk_implies(a, b), mk_implies(b, a))


# ---------------------------------------------------------------- indicator / ite
def ind(b):
    """indicator 0/1 integer"""
    if b.kind == "const":
        return ONE if b.args[0] else ZERO
    if b.kind == "and":
        r = ONE
        for x in b.args:
            r = r * ind(x)
        return r
    if b.kind == "or":
        r = ONE
        for x in b.args:
            r = r * (ONE - ind(x))
        return ONE - r
    if b.kind == "not":
        return ONE - ind(b.args[0])
    # canonical polarity for inequalities: le0 / lt0 pair (not (p<=0) == (-p<0))
    n = mk_not(b)
    if n.kind in ("le0", "lt0") and n.id < b.id:
        return ONE - P(mk_atom("ind", (n,), "I"))
    return P(mk_atom("ind", (b,), "I"))


def ite(c, a, b):
    a, b = P(a), P(b)
    if a is b:
        return a
    if c.kind == "const":
        return a if c.args[0] else b
    i = ind(c)
    return b + i * (a - b)


# ---------------------------------------------------------------- transcendental heads
def exp_(p):
    if p.is_zero():
        return ONE
    if len(p.t) > 1:
        # exp(a+b) = exp(a)*exp(b)
        r = ONE
        for m, c in p.t.items():
            r = r * exp_(Poly({m: c}))
        return r
    (m, c), = p.t.items()
    if m == ():
        return P(mk_atom("exp", (p,), "R"))
    if c < 0:
        return inv(exp_(-p))
    if c.denominator == 1 and c > 1:
        return P(mk_atom("exp", (Poly({m: _F1}),), "R")) ** int(c)
    return P(mk_atom("exp", (p,), "R"))


def pow_(base, e):
    """base**e for an integer-valued exponent term, or a real exponent (then opaque)."""
    if e.is_const() and e.const().denominator == 1:
        n = int(e.const())
        if abs(n) <= 64:
            return base ** n
    if not int_sorted(e):
        return P(mk_atom("powr", (base, e), "R"))
    if base.is_zero():
        return P(mk_atom("pow", (base, e), "R"))
    c = e.const()
    if c.denominator != 1:
        return P(mk_atom("powr", (base, e), "R"))
    rest = e - P(c)
    if base.is_const() and base.const() == 1:
        return ONE
    s = base.single()
    if s is not None and not base.is_const():
        # integer powers distribute over products
        m, k = s
        r = base ** int(c)
        if k != 1:
            r = r * P(mk_atom("pow", (P(k), rest), "R"))
        for a, ex in m:
            r = r * P(mk_atom("pow", (P(a), rest), "R")) ** ex
        return r
    return P(mk_atom("pow", (base, rest), "R")) * base ** int(c)


def trunc(p):
    if int_sorted(p) and _norm_int(p):
        return p
    return P(mk_atom("trunc", (p,), "I"))


def idiv(a, b):
    """C integer division of nonnegative a by positive b (caller checks sign)"""
    if b.is_const() and b.const() == 1:
        return a
    if a.is_const() and b.is_const() and b.const() != 0:
        import math
        return P(Fraction(math.trunc(a.const() / b.const())))
    q = poly_div_exact(a, b)
    if q is not None and _norm_int(q):
        return q
    return P(mk_atom("idiv", (a, b), "I"))


def imod(a, b):
    if a.is_const() and b.is_const() and b.const() != 0:
        import math
        return a - b * P(Fraction(math.trunc(a.const() / b.const())))
    q = poly_div_exact(a, b)
    if q is not None and _norm_int(q):
        return ZERO
    return P(mk_atom("imod", (a, b), "I"))


def poly_div_exact(a, b):
    """a/b if b is a single monomial dividing every monomial of a (nonneg exponents kept)"""
    s = b.single()
    if s is None:
        return None
    m, c = s
    q = a * Poly({tuple((x, -e) for x, e in m): 1 / c})
    for mm in q.t:
        for x, e in mm:
            if e < 0:
                return None
    return q


def always_divisible(a, c):
    """integer polynomial a is a multiple of the constant c for every value of its atoms (all residues tried)"""
    import itertools
    if not _norm_int(a) or c.denominator != 1 or c < 2 or c > 6:
        return False
    c = int(c)
    ats = sorted({x for m in a.t for x, _ in m}, key=lambda x: x.id)
    if len(ats) > 5:
        return False
    for vals in itertools.product(range(c), repeat=len(ats)):
        d = dict(zip(ats, vals))
        tot = 0
        for m, co in a.t.items():
            z = int(co)
            for x, e in m:
                z *= d[x] ** e
            tot += z
        if tot % c:
            return False
    return True


def split_by(a, m, c):
    """a = q*(c*m) + r with monomial division term by term"""
    q, r = {}, {}
    dm = dict(m)
    for mm, cc in a.t.items():
        d = dict(mm)
        ok = all(d.get(x, 0) >= e for x, e in dm.items())
        if ok and (cc / c).denominator == 1:
            q[tuple(sorted(((x, d[x] - dm.get(x, 0)) for x in d if d[x] - dm.get(x, 0)),
                           key=lambda z: z[0].id))] = cc / c
        else:
            r[mm] = cc
    return Poly(q), Poly(r)


# ---------------------------------------------------------------- sums
def mk_sum(v, hi, body, lo=0):
    """sum_{v=lo}^{hi-1} body ; v is a var Poly (fresh), empty when hi<=lo"""
    return mk_msum([(v, P(hi) - P(lo))], subst(body, {v.as_atom(): v + P(lo)}) if P(lo) is not ZERO else body)


def mk_msum(binders, body):
    """binders: list of (fresh var Poly, hi); later binders may depend on earlier ones.
    Distributes over monomials, eliminates Kronecker indicators with unit coefficient,
    splits into connected components and canonicalises the binder order."""
    if body.is_zero():
        return ZERO
    bl = []
    for v, hi in binders:
        if hi.is_const() and hi.const() <= 0:
            return ZERO
        bl.append((v.as_atom(), hi))
    res = ZERO
    for m, c in body.t.items():
        res = res + P(c) * _sum_mono(bl, m)
    return res


def _sum_mono(bl, mono):
    # expand nested msum atoms (exponent 1) that depend on a binder -> prenex
    bl = list(bl)
    vs = {v for v, _ in bl}
    for idx, (a, e) in enumerate(mono):
        if a.kind == "msum" and e == 1 and (a.fv & vs):
            bs, b2 = open_msum(a)
            rest = Poly({mono[:idx] + mono[idx + 1:]: _F1})
            return mk_msum([(P(v), h) for v, h in bl] + bs, rest * b2)
    # constant bounds: binder with hi==1 -> substitute 0
    for i, (v, hi) in enumerate(bl):
        if hi.is_const() and hi.const() == 1:
            sub = {v: ZERO}
            nb = [(P(w), subst(h, sub)) for j, (w, h) in enumerate(bl) if j != i]
            return mk_msum(nb, subst(Poly({mono: _F1}), sub)) if nb else subst(Poly({mono: _F1}), sub)
    # Kronecker elimination
    for idx, (a, e) in enumerate(mono):
        if a.kind == "ind" and a.args[0].kind == "eq0":
            p = a.args[0].args[0]
            for i in reversed(range(len(bl))):
                v, hi = bl[i]
                if v not in p.fv:
                    continue
                co = lin_coeff(p, v)
                if co is None or not co.is_const() or abs(co.const()) != 1:
                    continue
                e_sol = P(v) - p * (1 / co.const())
                if v in e_sol.fv or not int_sorted(e_sol):
                    continue
                # e_sol may not mention binders that come after v with dependence on v
                dep = False
                for j in range(len(bl)):
                    if j != i and v in bl[j][1].fv and bl[j][0] in e_sol.fv:
                        dep = True
                if dep:
                    continue
                sub = {v: e_sol}
                rest = Poly({mono[:idx] + mono[idx + 1:]: _F1})
                rng = ind(mk_le(ZERO, e_sol)) * ind(mk_lt(e_sol, hi))
                nbl = [(P(w), subst(h, sub)) for j, (w, h) in enumerate(bl) if j != i]
                # hi of v may depend on earlier binders only; e_sol may depend on any other binder
                nb = subst(rest, sub) * rng
                nbl = order_binders(nbl)
                if nbl is None:
                    continue
                return mk_msum(nbl, nb) if nbl else nb
    # split factors by dependence: connected components
    comp = _components(bl, mono)
    res = ONE
    free = [(a, e) for a, e in mono if not (a.fv & vs)]
    if free:
        res = res * Poly({tuple(free): _F1})
    for bset, fac in comp:
        if not fac:
            # sum of 1 over one binder group without factors
            if len(bset) == 1:
                hi = bset[0][1]
                res = res * ite(mk_le(ZERO, hi), hi, ZERO)
                continue
        if len(bset) == 1 and len(fac) == 1 and fac[0][0] is bset[0][0] and fac[0][1] in (1, 2):
            # sum of v, v^2 below hi
            hi = bset[0][1]
            z = hi * (hi - 1) * P(Fraction(1, 2)) if fac[0][1] == 1 else hi * (hi - 1) * (2 * hi - 1) * P(Fraction(1, 6))
            res = res * ite(mk_le(ZERO, hi), z, ZERO)
            continue
        a = _canon_msum(bset, tuple(fac))
        for h in MSUM_HOOKS:
            r = h(a)
            if r is not None:
                res = res * r
                break
        else:
            res = res * P(a)
    return res


# names given to sums by a contract (ghost functions): function(canonical msum atom) -> Poly or None
MSUM_HOOKS = []


def order_binders(bl):
    """topological order of binders by dependence of bounds"""
    out, rest = [], list(bl)
    names = {v.as_atom() for v, _ in bl}
    done = set()
    while rest:
        for i, (v, h) in enumerate(rest):
            if not ((h.fv & names) - done):
                out.append(rest.pop(i))
                done.add(v.as_atom())
                break
        else:
            return None
    return out


def _components(bl, mono):
    vs = [v for v, _ in bl]
    par = {v: v for v in vs}

    def find(x):
        while par[x] is not x:
            x = par[x]
        return x

    def union(xs):
        xs = list(xs)
        for y in xs[1:]:
            par[find(y)] = find(xs[0])
    vset = set(vs)
    for v, h in bl:
        union([v] + [w for w in h.fv if w in vset])
    for a, e in mono:
        d = [w for w in vs if w in a.fv]
        if d:
            union(d)
    groups = {}
    for v, h in bl:
        groups.setdefault(find(v), ([], []))[0].append((v, h))
    for a, e in mono:
        d = [w for w in vs if w in a.fv]
        if d:
            groups[find(d[0])][1].append((a, e))
    return list(groups.values())


_canon_cache = {}


def _perms(bset):
    """all orders of the binders that respect the dependence of the bounds"""
    allv = {v for v, _ in bset}
    for perm in itertools.permutations(range(len(bset))):
        seen = set()
        for i in perm:
            v, h = bset[i]
            if (h.fv & allv) - seen:
                break
            seen.add(v)
        else:
            yield [bset[i] for i in perm]


def _orders(bset, body):
    """orders respecting dependence, up to a colouring of the binders that does not depend on their names: binders of
    different colour are ordered by colour, only binders of the same colour are permuted"""
    vs = [v for v, _ in bset]
    col = {v: "" for v in vs}
    for _ in range(3):
        ranks = {c: i for i, c in enumerate(sorted(set(col.values())))}
        if len(ranks) == len(vs):
            break
        sub0 = {v: var("%%c%d" % ranks[col[v]]) for v in vs}
        new = {}
        for v, h in bset:
            sub = dict(sub0)
            sub[v] = var("%%focus")
            others = sorted(str(subst(h2, sub)) for w, h2 in bset if v in h2.fv)
            fac = sorted(str(subst(Poly({((a, e),): _F1}), sub)) for m in body.t for a, e in m if v in a.fv)
            new[v] = "%06d|%s|%s|%s" % (ranks[col[v]], subst(h, sub), others, fac)
        col = new
    ranks = {c: i for i, c in enumerate(sorted(set(col.values())))}
    allv = set(vs)

    def go(order, left, seen):
        if not left:
            yield list(order)
            return
        ready = [x for x in left if not ((x[1].fv & allv) - seen)]
        if not ready:
            return
        lo = min(ranks[col[v]] for v, _ in ready)
        for x in ready:
            if ranks[col[x[0]]] == lo:
                order.append(x)
                yield from go(order, [y for y in left if y is not x], seen | {x[0]})
                order.pop()
    yield from go([], list(bset), set())


def _canon_msum(bset, fac):
    ck = (tuple(bset), fac)
    r = _canon_cache.get(ck)
    if r is not None:
        return r
    body = Poly({fac: _F1})
    base = body.height
    for v, h in bset:
        base = max(base, h.height)
    n = len(bset)
    best = None
    for order in (_orders(bset, body) if n > 3 else _perms(bset)):
        # outermost binder gets the largest number
        sub, bs = {}, []
        for k, (v, h) in enumerate(order):
            num = base + n - k
            bs.append((num, subst(h, sub)))
            sub = dict(sub)
            sub[v] = P(bvar(num))
        nb = subst(body, sub)
        a = mk_atom("msum", (tuple(bs), nb), "I" if int_sorted(nb) else "R")
        k = akey(a)
        if best is None or k < best[0]:
            best = (k, a)
    _canon_cache[ck] = best[1]
    return best[1]


def open_msum(a, prefix="k"):
    """binders with fresh variables and the body"""
    sub, out = {}, []
    for num, hi in a.args[0]:
        f = fresh(prefix)
        out.append((f, subst(hi, sub)))
        sub = dict(sub)
        sub[bvar(num)] = f
    return out, subst(a.args[1], sub)


def mk_prod(v, hi, body, lo=0):
    """product_{v=lo}^{hi-1} body (opaque, alpha-canonical)"""
    lo = P(lo)
    hi = P(hi) - lo
    body = subst(body, {v.as_atom(): v + lo})
    if hi.is_const() and hi.const() <= 0:
        return ONE
    if hi.is_const() and hi.const() <= 8:
        r = ONE
        for i in range(int(hi.const())):
            r = r * subst(body, {v.as_atom(): P(i)})
        return r
    num = max(body.height, hi.height) + 1
    nb = subst(body, {v.as_atom(): P(bvar(num))})
    return P(mk_atom("mprod", (((num, hi),), nb), "I" if int_sorted(nb) else "R"))


def lin_coeff(p, v):
    """coefficient of atom v if p is linear in v with v only as a plain factor, else None"""
    co = {}
    for m, c in p.t.items():
        d = [e for a, e in m if a is v]
        if d:
            if d[0] != 1:
                return None
            mm = tuple((a, e) for a, e in m if a is not v)
            for a, e in mm:
                if v in a.fv:
                    return None
            co[mm] = co.get(mm, _F0) + c
        else:
            for a, e in m:
                if v in a.fv:
                    return None
    return Poly(co)


# ---------------------------------------------------------------- rewriting
class Rewriter:
    """bottom-up rewriting; `leaf(atom)` may return a replacement Poly or None (= default rebuild)."""

    def __init__(self, leaf=None, bleaf=None, touch=None):
        self.leaf, self.bleaf, self.touch = leaf, bleaf, touch
        self.memo = {}

    def poly(self, p):
        if self.touch is not None and not self.touch(p):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        res = ZERO
        changed = False
        for m, c in p.t.items():
            prod = P(c)
            mch = False
            for a, e in m:
                na = self.atom(a)
                if na.as_atom() is a:
                    prod = prod * Poly({((a, e),): _F1})
                else:
                    mch = True
                    prod = prod * (na ** e)
            changed = changed or mch
            res = res + prod
        if not changed:
            res = p
        self.memo[p] = res
        return res

    def atom(self, a):
        if self.touch is not None and not self.touch(a):
            return P(a)
        r = self.memo.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        self.memo[a] = r
        return r

    def _atom(self, a):
        if self.leaf is not None:
            x = self.leaf(a, self)
            if x is not None:
                return x
        k = a.kind
        if k == "var":
            return P(a)
        if k == "msum":
            bs, body = open_msum(a)
            nbs = [(v, self.poly(h)) for v, h in bs]
            nb = self.poly(body)
            if nb is body and all(x[1] is y[1] for x, y in zip(bs, nbs)):
                return P(a)
            return mk_msum(nbs, nb)
        if k == "mprod":
            bs, body = open_msum(a)
            (v, h), = bs
            nb, nh = self.poly(body), self.poly(h)
            if nb is body and nh is h:
                return P(a)
            return mk_prod(v, nh, nb)
        if k == "ind":
            nb = self.bool(a.args[0])
            return P(a) if nb is a.args[0] else ind(nb)
        na = tuple(self.poly(x) if isinstance(x, Poly) else (self.bool(x) if isinstance(x, B) else x) for x in a.args)
        if all(x is y for x, y in zip(na, a.args)):
            return P(a)
        return rebuild(k, na, a.sort)

    def bool(self, b):
        if self.touch is not None and not self.touch(b):
            return b
        r = self.memo.get(b)
        if r is not None:
            return r
        r = None
        if self.bleaf is not None:
            r = self.bleaf(b, self)
        if r is None:
            k = b.kind
            if k == "const":
                r = b
            elif k == "le0":
                r = mk_le0(self.poly(b.args[0]))
            elif k == "lt0":
                r = mk_lt0(self.poly(b.args[0]))
            elif k == "eq0":
                r = mk_eq0(self.poly(b.args[0]))
            elif k == "not":
                r = mk_not(self.bool(b.args[0]))
            elif k == "and":
                r = mk_and(*[self.bool(x) for x in b.args])
            elif k == "or":
                r = mk_or(*[self.bool(x) for x in b.args])
            elif k == "bapp":
                r = B("bapp", (b.args[0],) + tuple(self.poly(x) for x in b.args[1:]))
            else:
                raise ValueError(k)
        self.memo[b] = r
        return r

    def any(self, x):
        return self.poly(x) if isinstance(x, Poly) else self.bool(x)


def rebuild(k, na, sort):
    if k == "exp":
        return exp_(na[0])
    if k == "pow":
        return pow_(na[0], na[1])
    if k == "powr":
        return pow_(na[0], na[1])
    if k == "trunc":
        return trunc(na[0])
    if k == "idiv":
        return idiv(na[0], na[1])
    if k == "imod":
        return imod(na[0], na[1])
    if k == "polyatom":
        # polyatom stands for the polynomial itself (used with negative exponents)
        return inv(inv(na[0])) if False else _PA(na[0])
    return P(mk_atom(k, na, sort))


def _PA(q):
    # value q, but keep as invertible object: caller raises to negative powers through Poly.__pow__
    return q


def subst(x, mp):
    """mp: dict Atom(var) -> Poly"""
    if not mp:
        return x
    keys = frozenset(mp)
    if not (x.fv & keys):
        return x
    rw = Rewriter(leaf=lambda a, r: mp.get(a) if a.kind == "var" else None,
                  touch=lambda t: bool(t.fv & keys))
    return rw.any(x)


def with_atom(x, a, val):
    """x with the atom a replaced by val"""
    return Rewriter(leaf=lambda b, r: val if b is a else None, touch=lambda t: True).any(x)


def collect_atoms(x, pred=None, deep=True):
    """all atoms occurring in x (including nested); msum bodies are included with bound names"""
    out, seen = [], set()

    def go(t):
        if isinstance(t, Poly):
            for m in t.t:
                for a, _ in m:
                    go(a)
        elif isinstance(t, B):
            if t in seen:
                return
            seen.add(t)
            for y in t.args:
                go(y)
        elif isinstance(t, Atom):
            if t in seen:
                return
            seen.add(t)
            if pred is None or pred(t):
                out.append(t)
            if deep:
                if t.kind in ("msum", "mprod"):
                    for _, h in t.args[0]:
                        go(h)
                    go(t.args[1])
                else:
                    for y in t.args:
                        go(y)
        elif isinstance(t, tuple):
            for y in t:
                go(y)
    go(x)
    return out


def mentions(x, pred):
    return bool(collect_atoms(x, pred))


# ---------------------------------------------------------------- differentiation
class NotDifferentiable(Exception):
    pass


def diff(p, is_cell):
    """Derivative of p.  is_cell(atom) -> Poly (derivative of that leaf atom) or None for a constant
    leaf; called for var and app atoms of real sort.  Indicators are treated as locally constant."""
    memo = {}

    def dp(p):
        r = memo.get(p)
        if r is not None:
            return r
        res = ZERO
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                da = datom(a)
                if da.is_zero():
                    continue
                rest = list(m)
                rest[i] = (a, e - 1)
                rest = tuple(x for x in rest if x[1] != 0)
                res = res + Poly({rest: c * e}) * da
        memo[p] = res
        return res

    def datom(a):
        if a.sort == "I":
            return ZERO
        k = a.kind
        if k in ("var", "app"):
            r = is_cell(a)
            if r is not None:
                return r
            if k == "app":
                # argument positions of real sort would need a chain rule
                for x in a.args[1:]:
                    if not int_sorted(x) and not dp(x).is_zero():
                        raise NotDifferentiable(str(a))
            return ZERO
        if k == "exp":
            return P(a) * dp(a.args[0])
        if k == "polyatom":
            return dp(a.args[0])
        if k == "pow":
            base, e = a.args
            return e * P(a) * inv(base) * dp(base)
        if k == "powr":
            base, e = a.args
            if not dp(e).is_zero():
                raise NotDifferentiable(str(a))
            return e * P(a) * inv(base) * dp(base)
        if k == "msum":
            bs, body = open_msum(a)
            return mk_msum(bs, dp(body))
        if k in ("sqrt", "trunc", "floor", "ind") and not any(is_cell(x) for x in collect_atoms(a.args[0]) if x.kind in ("var", "app")):
            return ZERO
        raise NotDifferentiable(k)
    return dp(p)


# ---------------------------------------------------------------- printing / keys
_kc = {}


def mono_key(m):
    return tuple((akey(a), e) for a, e in sorted(m, key=lambda z: akey(z[0])))


def akey(a):
    if a._key is None:
        a._key = show_atom(a)
    return a._key


def show_atom(a):
    if a._key is not None:
        return a._key
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "app":
        return "%s(%s)" % (a.args[0], ",".join(show(x) for x in a.args[1:]))
    if k == "ind":
        return "[%s]" % show_b(a.args[0])
    if k in ("msum", "mprod"):
        return "%s{%s}(%s)" % ("Sum" if k == "msum" else "Prod",
                               ",".join("#%d<%s" % (n, show(h)) for n, h in a.args[0]), show(a.args[1]))
    if k == "polyatom":
        return "(%s)" % show(a.args[0])
    return "%s(%s)" % (k, ",".join(show(x) if isinstance(x, Poly) else str(x) for x in a.args))


def show(p):
    if p._key is not None:
        return p._key
    if not p.t:
        return "0"
    out = []
    for mk, m in sorted((mono_key(m), m) for m in p.t):
        c = p.t[m]
        fs = ["%s%s" % (k, "" if e == 1 else "^%d" % e) for k, e in mk]
        if not fs:
            s = str(c)
        elif c == 1:
            s = "*".join(fs)
        elif c == -1:
            s = "-" + "*".join(fs)
        else:
            s = "%s*%s" % (c, "*".join(fs))
        out.append(s)
    p._key = " + ".join(out)
    return p._key


def show_b(b):
    k = b.kind
    if k == "const":
        return str(b.args[0])
    if k == "le0":
        return "%s<=0" % show(b.args[0])
    if k == "lt0":
        return "%s<0" % show(b.args[0])
    if k == "eq0":
        return "%s==0" % show(b.args[0])
    if k == "not":
        return "!(%s)" % show_b(b.args[0])
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(show_b(x) for x in b.args) + ")"
    return "%s(%s)" % (b.args[0], ",".join(show(x) for x in b.args[1:]))
