"""Proof contexts.  A Ctx is a set of assumed facts (B terms); it proves B goals with z3 over a
linear abstraction (every nonlinear monomial is one solver variable) strengthened with product facts
and definitional axioms, and proves equalities of real terms by normalisation."""
import itertools
import time
import z3
from .terms import *
from .terms import _F0, _F1, _norm_int
from . import sampler

STATS = {"z3_queries": 0, "z3_time": 0.0, "eq_queries": 0, "eq_time": 0.0, "z3_unknown": 0}
RLIMIT = 15_000_000          # z3 resource units per query: independent of the machine's load
TIMEOUT_MS = 60_000          # wall-clock backstop

# app name -> list of functions(args) -> list of B   (instances of assumed / proved universal facts)
class AxiomTable:
    def __init__(self):
        self.by_name = {}
        self.by_prefix = []
        self.one_to_one = {}          # function -> n: takes different values at different places of [0,n)

    def add(self, name, fn):
        self.by_name.setdefault(name, []).append(fn)

    def instances(self, atom):
        out = []
        nm = atom.args[0]
        for fn in self.by_name.get(nm, ()):
            out.extend(fn(*atom.args[1:]))
        if nm.endswith(".len") or nm.endswith(".size") or "#len~" in nm:
            out.append(mk_le(ZERO, P(atom)))
        return out


class Ctx:
    # attributes are plain (no slots): sampler.models caches on the object
    def __init__(self, facts=(), axioms=None, parent=None):
        self.parent = parent
        self.axioms = axioms if axioms is not None else (parent.axioms if parent else AxiomTable())
        base = list(parent.facts) if parent else []
        seen = set(base)
        for f in facts:
            for g in (f.args if f.kind == "and" else (f,)):
                if g is not TRUE and g not in seen:
                    seen.add(g)
                    base.append(g)
                    if g.kind == "le0":             # p <= 0 and p >= 0: the equality itself
                        q = mk_le(ZERO, g.args[0])
                        if q in seen:
                            e = mk_eq(g.args[0], ZERO)
                            if e is not TRUE and e not in seen:
                                seen.add(e)
                                base.append(e)
        self.facts = tuple(base)
        self.fset = seen
        self._memo = {}
        self._incons = None
        self._ori = None
        self._pos = {}

    def assume(self, *bs):
        bs = [b for b in bs if b is not TRUE and b not in self.fset]
        if not bs:
            return self
        return Ctx(bs, None, self)

    # ---------------------------------------------------------------- proving
    def prove(self, goal, hard=False):
        if goal.kind == "const":
            return goal.args[0] or self.inconsistent()
        if goal in self.fset:
            return True
        r = self._memo.get((goal, hard))
        if r is None and hard and self._memo.get((goal, False)):
            return True
        if r is None:
            r = self._prove(goal, hard)
            self._memo[(goal, hard)] = r
        return r

    def refute(self, goal):
        return self.prove(mk_not(goal))

    def decide(self, b):
        """True / False / None"""
        if b.kind == "const":
            return b.args[0]
        if self.prove(b):
            return True
        if self.prove(mk_not(b)):
            return False
        return None

    def inconsistent(self):
        if FALSE in self.fset:
            return True
        if self._incons is None:
            self._incons = False
            self._incons = self._prove(FALSE)
        return self._incons

    def _prove(self, goal, hard=False):
        if goal.kind == "and":
            return all(self.prove(x, hard) for x in goal.args)
        # numeric fast path: try linear, then with products
        q = Query(self, goal)
        if sampler.falsified(self, goal, q.plain):
            return False
        for level in ((0, 1, 2) if hard else (0, 1)):
            r = q.run(level)
            if r:
                return True
            if r is None:
                continue
        return False

    def prove0(self, goal):
        """linear reasoning only"""
        if goal.kind == "const":
            return goal.args[0]
        if goal in self.fset:
            return True
        r = self._memo.get((goal, False))
        if r is None:
            r = self._memo.get((goal, 0))
            if r is None:
                q = Query(self, goal)
                r = self._memo[(goal, 0)] = not sampler.falsified(self, goal, q.plain) and bool(q.run(0))
        return r

    def oriented(self):
        """(substitution from equalities between variables and terms, facts after substitution): congruence"""
        if self._ori is None:
            sub = eq_substs(self)
            self._ori = (sub, tuple(f if not sub else g for f, g in zip(self.facts, [subst(f, sub) for f in self.facts] if sub else self.facts) if g is not TRUE))
        return self._ori

    def model(self, goal_extra=()):
        q = Query(self, FALSE)
        return q.model(goal_extra)

    def nonneg(self, atom):
        r = self._pos.get(atom)
        if r is None:
            self._pos[atom] = False
            if atom.kind in ("exp",) or (atom.kind == "ind"):
                r = True
            elif atom.kind == "app" and atom.args[0].endswith(".len"):
                r = True
            else:
                r = self.prove(mk_le(ZERO, P(atom)))
            self._pos[atom] = r
        return r


class Z3Env:
    def __init__(self):
        self.vars = {}
        self.n = 0

    def mono(self, m):
        v = self.vars.get(m)
        if v is None:
            isint = all(a.sort == "I" and e > 0 for a, e in m)
            nm = "m%d" % len(self.vars)
            v = z3.Int(nm) if isint else z3.Real(nm)
            self.vars[m] = v
        return v


class Query:
    def __init__(self, ctx, goal):
        self.ctx, self.goal = ctx, goal

    def atoms_of(self, bs):
        out, seen = [], set()
        for b in bs:
            for a in collect_atoms(b):
                if a not in seen:
                    seen.add(a)
                    out.append(a)
        return out

    def plain(self):
        if not hasattr(self, "base"):
            self.base = self.closure()
        return self.base[0]

    def closure(self):
        """facts + axioms instances (without product facts)"""
        ctx = self.ctx
        sub, facts = ctx.oriented()
        facts = list(facts)
        goal = subst(self.goal, sub) if sub else self.goal
        if goal is not FALSE:
            neg = mk_not(goal)
        else:
            neg = TRUE
        pool = facts + [neg]
        done = set()
        extra = []
        for _ in range(3):
            new = []
            for a in self.atoms_of(pool + extra):
                if a in done:
                    continue
                done.add(a)
                if a.fv and any(v.args[0].startswith("#") for v in a.fv):
                    continue
                if a.kind == "app":
                    new.extend(ctx.axioms.instances(a))
                elif a.kind == "trunc":
                    p, t = a.args[0], P(a)
                    new.append(mk_implies(mk_le(ZERO, p), mk_and(mk_le(t, p), mk_lt(p, t + 1), mk_le(ZERO, t))))
                    new.append(mk_implies(mk_le(p, ZERO), mk_and(mk_le(p, t), mk_lt(t - 1, p), mk_le(t, ZERO))))
                elif a.kind == "floor":
                    p, t = a.args[0], P(a)
                    new.append(mk_and(mk_le(t, p), mk_lt(p, t + 1)))
                elif a.kind in ("idiv", "imod"):
                    x, y = a.args
                    q_ = P(mk_atom("idiv", (x, y), "I"))
                    r_ = x - q_ * y
                    if a.kind == "imod":
                        new.append(mk_eq(P(a), r_))
                    new.append(mk_implies(mk_and(mk_le(ZERO, x), mk_lt(ZERO, y)),
                                          mk_and(mk_le(ZERO, r_), mk_lt(r_, y), mk_le(ZERO, q_))))
                    new.append(mk_implies(mk_and(mk_le(x, ZERO), mk_lt(ZERO, y)),
                                          mk_and(mk_le(r_, ZERO), mk_lt(-r_, y), mk_le(q_, ZERO))))
                elif a.kind == "exp":
                    new.append(mk_lt(ZERO, P(a)))
                elif a.kind == "powr":
                    new.append(mk_implies(mk_lt(ZERO, a.args[0]), mk_lt(ZERO, P(a))))
                elif a.kind == "pow":
                    new.append(mk_implies(mk_lt(ZERO, a.args[0]), mk_lt(ZERO, P(a))))
                elif a.kind == "sqrt":
                    p, t = a.args[0], P(a)
                    new.append(mk_implies(mk_le(ZERO, p), mk_and(mk_le(ZERO, t), mk_eq(t * t, p))))
                elif a.kind == "polyatom":
                    new.append(mk_eq(P(a), a.args[0]))
                elif a.kind == "msum":
                    if self.body_nonneg(a):
                        new.append(mk_le(ZERO, P(a)))
            new.extend(self.msum_lemmas([a for a in done if a.kind == "msum"]))
            if sub:
                new = [subst(b, sub) for b in new]
            new = [b for b in new if b is not TRUE and b not in extra]
            if not new:
                break
            extra.extend(new)
        return facts + extra, neg


    def body_nonneg(self, a):
        key = (self.ctx.axioms, a)
        # sign of the body under the binder ranges only (plus the context facts)
        r = self.ctx._pos.get(("body", a))
        if r is None:
            if Query._depth >= 2:
                return False
            self.ctx._pos[("body", a)] = False
            Query._depth += 1
            try:
                r = self._body_nonneg(a)
            finally:
                Query._depth -= 1
            self.ctx._pos[("body", a)] = r
        return r

    _depth = 0

    def _body_nonneg(self, a):
        bs, body = open_msum(a)
        fs = []
        for v, h in bs:
            fs += [mk_le(ZERO, v), mk_lt(v, h)]
        # facts that themselves mention sums are left out: they would reopen the same question
        keep = [f for f in self.ctx.facts if not any(x.kind == "msum" for x in collect_atoms(f))]
        c = Ctx(keep + fs, self.ctx.axioms)
        r = all(cc > 0 for cc in body.t.values()) and \
            all(c.nonneg(x) for m in body.t for x, e in m) if len(bs) <= 2 else False
        if not r and len(bs) == 1:
            r = c.prove(mk_le(ZERO, body))
        return r

    def msum_lemmas(self, sums):
        """prefix-sum monotonicity for single-binder sums with a common body"""
        out = []
        groups = {}
        for a in sums:
            if len(a.args[0]) == 2:        # a sum over rows: the outer binder counts whole rows
                bs, body = open_msum(a)
                (v, hi), (v2, h2) = bs
                if v2.as_atom() in hi.fv:
                    continue
                body = subst(mk_msum([(v2, h2)], body), {v.as_atom(): var("%B%")})
                groups.setdefault(body, []).append((a, hi))
                continue
            if len(a.args[0]) != 1:
                continue
            (num, hi), = a.args[0]
            v = fresh("k")
            body = subst(a.args[1], {bvar(num): var("%B%")})
            groups.setdefault(body, []).append((a, hi))
        for body, lst in groups.items():
            bv = var("%B%").as_atom()
            if len(lst) > 6:
                lst = lst[:6]
            for (a, ha), (b, hb) in itertools.permutations(lst, 2):
                if not (self.body_nonneg(a) or self.body_nonneg(b)):
                    continue
                if mk_lt(ha, hb) in self.ctx.fset and mk_le(ZERO, ha) in self.ctx.fset:
                    out.append(mk_le(P(a) + subst(body, {bv: ha}), P(b)))
                    continue
                out.append(mk_implies(mk_le(ha, hb), mk_le(P(a), P(b))))
                out.append(mk_implies(mk_and(mk_le(ZERO, ha), mk_lt(ha, hb)),
                                      mk_le(P(a) + subst(body, {bv: ha}), P(b))))
        return out

    # ---------------------------------------------------------------- z3
    def zb(self, b):
        r = self.zmemo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "const":
            r = z3.BoolVal(b.args[0])
        elif k == "le0":
            r = self.zp(b.args[0]) <= 0
        elif k == "lt0":
            r = self.zp(b.args[0]) < 0
        elif k == "eq0":
            r = self.zp(b.args[0]) == 0
        elif k == "not":
            r = z3.Not(self.zb(b.args[0]))
        elif k == "and":
            r = z3.And([self.zb(x) for x in b.args])
        elif k == "or":
            r = z3.Or([self.zb(x) for x in b.args])
        elif k == "bapp":
            r = z3.Bool("b%d" % b.id)
        else:
            raise ValueError(k)
        self.zmemo[b] = r
        return r

    def zp(self, p):
        terms = []
        for m, c in p.t.items():
            if m == ():
                terms.append(self.znum(c))
                continue
            mv = self.zm(m)
            if c == 1:
                terms.append(mv)
            else:
                terms.append(self.znum(c) * mv)
        if not terms:
            return z3.IntVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def znum(self, c):
        return z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))

    def zm(self, m):
        if self.nl and all(e > 0 for _, e in m) and (len(m) > 1 or m[0][1] > 1):
            r = None
            for a, e in m:
                for _ in range(e):
                    x = self.zm(((a, 1),))
                    r = x if r is None else r * x
            return r
        v = self.zenv.vars.get(m)
        if v is not None:
            return v
        inds = [a for a, e in m if a.kind == "ind"]
        if inds:
            v = self.zenv.mono(m)
            rest = tuple((a, e) for a, e in m if a.kind != "ind")
            conds = z3.And([self.zb(a.args[0]) for a in inds])
            rv = self.zm(rest) if rest else z3.IntVal(1)
            self.defs.append(z3.If(conds, v == rv, v == 0))
            return v
        v = self.zenv.mono(m)
        if all(e % 2 == 0 for _, e in m):
            self.defs.append(v >= 0)
        return v

    def run(self, level):
        t0 = time.time()
        STATS["z3_queries"] += 1
        try:
            self.zenv = Z3Env()
            self.zmemo = {}
            self.defs = []
            self.nl = False
            if not hasattr(self, "base"):
                self.base = self.closure()
            facts, neg = self.base
            fs = list(facts)
            if level >= 1:
                if not hasattr(self, "prods"):
                    self.prods = self.products(facts, neg)
                if level == 1 and not self.prods:
                    return None
                fs += self.prods
            if level == 2:
                self.nl = True
                if not any(len(m) > 1 or (m and m[0][1] != 1) for f in fs + [neg] for m in bool_monos(f)):
                    return None
            s = z3.Solver()
            s.set("timeout", TIMEOUT_MS)
            s.set("rlimit", RLIMIT)
            for f in fs:
                s.add(self.zb(f))
            s.add(self.zb(neg))
            i = 0
            while i < len(self.defs):
                s.add(self.defs[i])
                i += 1
            r = s.check()
            if r == z3.unknown:
                STATS["z3_unknown"] += 1
            return r == z3.unsat
        finally:
            STATS["z3_time"] += time.time() - t0

    # ---------------------------------------------------------------- products
    def products(self, facts, neg):
        ctx = self.ctx
        ineqs, eqs = [], []

        def flat(b):
            if b.kind == "and":
                for x in b.args:
                    flat(x)
            elif b.kind == "le0":
                ineqs.append((-b.args[0], False))
            elif b.kind == "lt0":
                ineqs.append((-b.args[0], True))
            elif b.kind == "eq0":
                eqs.append(b.args[0])
        for f in facts:
            if f.kind == "or":
                continue
            flat(f)
        flat(neg)
        # target monomials
        target = set()
        neg_atoms = set()
        for f in list(facts) + [neg]:
            for m in bool_monos(f):
                if len(m) > 1 or (m and m[0][1] != 1):
                    target.add(m)
                    for a, e in m:
                        if e < 0:
                            neg_atoms.add(a)
        if not target:
            return []
        out = []
        invs = []
        for a in neg_atoms:
            if a.kind == "exp" or ctx.prove(mk_lt(ZERO, P(a))):
                ia = Poly({((a, -1),): _F1})
                invs.append(ia)
                ineqs.append((ia, True))
                # also powers
                for m in list(target):
                    for x, e in m:
                        if x is a and e < -1:
                            ineqs.append((Poly({((a, e),): _F1}), True))
        seen = set()

        def add(p, strict):
            b = mk_lt(ZERO, p) if strict else mk_le(ZERO, p)
            if b.kind != "const" and b not in seen:
                seen.add(b)
                out.append(b)

        def relevant(p):
            for m in p.t:
                if m in target:
                    return True
            return False
        base = list(ineqs)
        # cofactor multiplication
        goal_monos = [m for m in bool_monos(neg) if m]
        tm = [m for m in target]
        if len(tm) > 60:
            gm = set(goal_monos)
            tm = sorted(tm, key=lambda m: (m not in gm, len(m)))[:60]
        def nonneg_mono(k):
            return all(e % 2 == 0 or ctx.nonneg(a) or (e < 0 and any(P(a) * ia == ONE for ia in invs)) for a, e in k)
        for m in tm:
            if all(e > 0 for a, e in m) and nonneg_mono(m):
                add(Poly({m: _F1}), False)
        nb = 0
        cof = []
        for p, strict in base[:60]:
            for nu in list(p.t):
                if nu == ():
                    continue
                for mu in tm:
                    d = dict(mu)
                    for a, e in nu:
                        d[a] = d.get(a, 0) - e
                    k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))
                    if not k or len(k) > 4:
                        continue
                    if any(e < 0 and dict(mu).get(a, 0) >= 0 for a, e in k):
                        continue
                    if nonneg_mono(k):
                        q = p * Poly({k: _F1})
                        cof.append((q, False))
                        add(q, False)
            if len(out) > 400:
                break
        for p in eqs[:30]:
            for nu in list(p.t):
                for mu in tm:
                    d = dict(mu)
                    for a, e in nu:
                        d[a] = d.get(a, 0) - e
                    if any(e < 0 and dict(mu).get(a, 0) >= 0 for a, e in d.items()):
                        continue
                    k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))
                    if not k or len(k) > 3:
                        continue
                    b = mk_eq0(p * Poly({k: _F1}))
                    if b.kind != "const" and b not in seen:
                        seen.add(b)
                        out.append(b)
        # pairwise
        nbase = base if len(base) <= 40 else base[:15] + base[-25:]
        for i in range(len(nbase)):
            for j in range(i, len(nbase)):
                p, q = nbase[i], nbase[j]
                if len(p[0].t) * len(q[0].t) > 64:
                    continue
                r = p[0] * q[0]
                if relevant(r):
                    add(r, p[1] and q[1])
                if len(out) > 900:
                    return out
        return out

    # ---------------------------------------------------------------- models (for counterexample search)
    def model(self, extra=()):
        self.zenv = Z3Env()
        self.zmemo = {}
        self.defs = []
        self.nl = True
        facts, neg = self.closure()
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        s.set("rlimit", RLIMIT)
        for f in list(facts) + list(extra):
            s.add(self.zb(f))
        s.add(self.zb(neg))
        for d in self.defs:
            s.add(d)
        if s.check() != z3.sat:
            return None
        md = s.model()
        out = {}
        for m, v in self.zenv.vars.items():
            if len(m) == 1 and m[0][1] == 1:
                val = md.eval(v, model_completion=True)
                try:
                    out[m[0][0]] = Fraction(str(val.as_fraction()) if hasattr(val, "as_fraction") else str(val))
                except Exception:
                    pass
        return out


_bm = {}


def bool_monos(b):
    r = _bm.get(b)
    if r is None:
        r = set()
        if b.kind in ("le0", "lt0", "eq0"):
            r |= set(b.args[0].t)
        elif b.kind in ("and", "or", "not"):
            for x in b.args:
                r |= bool_monos(x)
        _bm[b] = r
    return r


# ---------------------------------------------------------------- euclidean splitting of integer equations
def radices(p):
    """radix candidates: atoms and products of two or three atoms that occur inside larger monomials"""
    import itertools
    out, seen = [], set()
    prods = []
    for m in p.t:
        if sum(e for _, e in m) >= 2 and all(e > 0 for _, e in m):
            ats = [a for a, e in m if a.sort == "I" and a.kind != "ind"]
            for a in ats:
                if a not in seen:
                    seen.add(a)
                    out.append(((a, 1),))
            for k in (2, 3):
                if len(ats) > k - 1 and len(ats) <= 5:
                    for sub in itertools.combinations(ats, k):
                        t = tuple(sorted(((a, 1) for a in sub), key=lambda z: z[0].id))
                        if len(t) < len(m) or any(e > 1 for _, e in m):
                            if t not in prods:
                                prods.append(t)
    # a product is only useful when it divides at least two monomials or one other than itself
    return out + prods[:12]


def radix_split(p, S):
    """p == A*S + R, R without monomials divisible by S"""
    A, R = {}, {}
    ds = dict(S)
    for m, c in p.t.items():
        d = dict(m)
        if all(d.get(a, 0) >= e for a, e in ds.items()):
            for a, e in ds.items():
                d[a] -= e
            k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))
            A[k] = A.get(k, 0) + c
        else:
            R[m] = c
    return Poly(A), Poly(R)


def euclid_split(p, ctx, depth=0):
    """p == 0 (integer polynomial).  Returns a list of polynomials that must all vanish (consequences),
    obtained from  A*S + B == 0, |B| < S  =>  A == 0 and B == 0.   The result always contains p-equivalent info."""
    if depth > 6 or p.is_const():
        return [p]
    for S in radices(p):
        A, Bp = radix_split(p, S)
        if A.is_zero():
            continue
        Sp = Poly({S: Fraction(1)})
        if ctx.prove(mk_lt(Bp, Sp)) and ctx.prove(mk_lt(-Bp, Sp)):
            return euclid_split(A, ctx, depth + 1) + euclid_split(Bp, ctx, depth + 1)
    q = quad_split(p, ctx)
    if q is not None:
        return euclid_split(q[0], ctx, depth + 1) + euclid_split(q[1], ctx, depth + 1)
    # constant radix
    consts = sorted({abs(int(c)) for m, c in p.t.items() if m != () and c.denominator == 1 and abs(c) > 1}, reverse=True)
    for k in consts:
        A, Bp = {}, {}
        for m, c in p.t.items():
            if c.denominator == 1 and int(c) % k == 0:
                A[m] = c / k
            else:
                Bp[m] = c
        A, Bp = Poly(A), Poly(Bp)
        if Bp.is_zero():
            return euclid_split(A, ctx, depth + 1)
        if ctx.prove(mk_lt(Bp, P(k))) and ctx.prove(mk_lt(-Bp, P(k))):
            return euclid_split(A, ctx, depth + 1) + euclid_split(Bp, ctx, depth + 1)
    return [p]


def quad_split(p, ctx):
    """x^2 - y^2 + r == 0 with r <= 2x when x < y and -r <= 2y when y < x (x, y >= 0):  x == y and r == 0.
    Rows of a triangular layout that starts row l at l^2."""
    sq = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 2 and m[0][0].sort == "I" and abs(c) == 1:
            sq[m[0][0]] = c
    if len(sq) != 2:
        return None
    (x, cx), (y, cy) = sq.items()
    if cx + cy != 0:
        return None
    if cx < 0:
        x, y = y, x
    px, py = P(x), P(y)
    r = p - px * px + py * py
    if any(sum(e for _, e in m) > 1 for m in r.t):
        return None
    if not (ctx.prove(mk_le(ZERO, px)) and ctx.prove(mk_le(ZERO, py))):
        return None
    if ctx.assume(mk_lt(px, py)).prove(mk_le(r, 2 * px)) and ctx.assume(mk_lt(py, px)).prove(mk_le(-r, 2 * py)):
        return [px - py, subst(r, {x: py}) if x in r.fv else r]
    return None


def radix_le(p, ctx, depth=0):
    """q with  p <= 0  iff  q <= 0  (integers), from p == q*S + r, S >= 1, -S < r <= 0"""
    if depth > 4:
        return p
    for S in radices(p):
        A, R = radix_split(p, S)
        if A.is_const() or not int_sorted(A) or not int_sorted(R) or any(sum(e for _, e in m) > 1 for m in R.t):
            continue
        Sp = Poly({S: Fraction(1)})
        for k in (0, 1, -1):
            q, r = A + k, R - k * Sp
            if ctx.prove0(mk_le(r, ZERO)) and ctx.prove0(mk_lt(-r, Sp)):
                return radix_le(q, ctx, depth + 1)
    return p


def merge_le_pairs(body):
    """[x <= 0][-x <= 0] -> [x == 0]"""
    res, changed = {}, False
    acc = ZERO
    for m, c in body.t.items():
        les = {a.args[0].args[0]: a for a, e in m if a.kind == "ind" and a.args[0].kind == "le0"}
        done = set()
        extra = ONE
        for x, a in les.items():
            b = les.get(-x)
            if b is not None and a not in done and b is not a:
                done |= {a, b}
                extra = extra * ind(mk_eq0(x))
        if done:
            changed = True
            acc = acc + Poly({tuple((a, e) for a, e in m if a not in done): c}) * extra
        else:
            res[m] = c
    return acc + Poly(res) if changed else body


def prove_ne(ctx, p, depth=0):
    """p != 0 for integer p"""
    if p.is_const():
        return p.const() != 0 or ctx.inconsistent()
    b = mk_eq0(p)
    if b is FALSE:
        return True
    if ctx.axioms.one_to_one and len(p.t) == 2:
        (m, x), (n, y) = p.t.items()
        if len(m) == len(n) == 1 and x == -y and m[0][1] == n[0][1] == 1:
            f, g = m[0][0], n[0][0]
            hi = ctx.axioms.one_to_one.get(f.args[0]) if f.kind == g.kind == "app" and f.args[0] == g.args[0] and len(f.args) == 2 else None
            if hi is not None and all(ctx.prove(mk_and(mk_le(ZERO, z), mk_lt(z, hi))) for z in (f.args[1], g.args[1])) and prove_ne(ctx, f.args[1] - g.args[1]):
                return True
    if ctx.prove(mk_not(b)):
        return True
    parts = euclid_split(p, ctx)
    if len(parts) > 1 or parts[0] is not p:
        for q in parts:
            if q.is_const() and q.const() != 0:
                return True
        c2 = ctx.assume(*[mk_eq0(q) for q in parts])
        if c2.inconsistent():
            return True
    if depth < 2:
        for a in {a for m in p.t for a, e in m if a.kind == "ind"}:       # piecewise: both cases
            b = a.args[0]
            return prove_ne(ctx.assume(b), with_atom(p, a, ONE), depth + 1) and prove_ne(ctx.assume(mk_not(b)), with_atom(p, a, ZERO), depth + 1)
    return False


def prove_int_eq(ctx, a, b):
    d = a - b
    if d.is_zero():
        return True
    return ctx.prove(mk_eq0(d))


# ---------------------------------------------------------------- simplification and equality of real terms
class Simplifier:
    """rewrites with the knowledge of a context: decides indicators, trunc, min ranges inside sums"""

    def __init__(self, ctx, unfold=None, depth=0):
        self.ctx = ctx
        self.unfold = unfold  # function(atom, ctx) -> Poly or None
        self.depth = depth
        self.rw = Rewriter(leaf=self.leaf)

    def poly(self, p):
        return absorb_products(self.rw.poly(p), self.ctx)

    def leaf(self, a, rw):
        k = a.kind
        ctx = self.ctx
        if k == "ind":
            b = rw.bool(a.args[0])
            if b.kind == "const":
                return ind(b)
            d = ctx.decide(b)
            if d is None and b.kind == "eq0" and int_sorted(b.args[0]) and prove_ne(ctx, b.args[0]):
                d = False
            if d is None:
                return ind(b)
            return ONE if d else ZERO
        if k == "trunc":
            p = rw.poly(a.args[0])
            return simp_trunc(p, ctx)
        if k == "pow":
            b, e = rw.poly(a.args[0]), rw.poly(a.args[1])
            if b.is_zero():
                if ctx.prove(mk_lt(ZERO, e)):
                    return ZERO
                if ctx.prove(mk_eq0(e)):
                    return ONE
            return pow_(b, e)
        if k == "msum":
            bs, body = open_msum(a)
            fs, nbs = [], []
            c = ctx
            for v, h in bs:
                h2 = Simplifier(c, self.unfold, self.depth + 1).poly(h) if h.fv else h
                nbs.append((v, h2))
                c = c.assume(mk_le(ZERO, v), mk_lt(v, h2))
            if c.inconsistent():
                return ZERO
            nb = Simplifier(c, self.unfold, self.depth + 1).poly(body)
            res = None
            if len(nbs) == 1:
                res = self.window(nbs[0], nb, c)
            if res is None:
                res = mk_msum(nbs, self.split_deltas(nbs, nb, c))
            return self.post_sum(res)
        if k == "app" and self.unfold is not None:
            na = tuple(rw.poly(x) for x in a.args[1:])
            a2 = P(mk_atom("app", (a.args[0],) + na, a.sort))
            r = self.unfold(a2.as_atom(), ctx)
            if r is not None:
                return Simplifier(ctx, self.unfold, self.depth + 1).poly(r)
            return a2
        return None

    def split_deltas(self, nbs, body, c):
        """[A*S + B == 0] with |B| < S on the summation ranges is [A == 0][B == 0]: lets deltas of mixed-radix
        indices be eliminated binder by binder"""
        bvs = {v.as_atom() for v, _ in nbs}
        out = None
        for m in list(body.t):
            for a, e in m:
                if a.kind == "ind" and a.args[0].kind == "le0" and (a.fv & bvs) and int_sorted(a.args[0].args[0]):
                    p = a.args[0].args[0]
                    q = radix_le(p, c)
                    if q is not p:
                        if out is None:
                            out = {}
                        out[a] = ind(mk_le0(q))
                if a.kind == "ind" and a.args[0].kind == "eq0" and (a.fv & bvs) and int_sorted(a.args[0].args[0]):
                    p = a.args[0].args[0]
                    parts = euclid_split(p, c)
                    if len(parts) > 1:
                        if out is None:
                            out = {}
                        r = ONE
                        for q in parts:
                            r = r * ind(mk_eq0(q))
                        out[a] = r
        if not out:
            return body
        return merge_le_pairs(Rewriter(leaf=lambda a, rw: out.get(a)).poly(body))

    def window(self, binder, body, c):
        """Sum over v of terms that vanish except at v == w, where the window of w is singled out by
        prefix-sum bounds in indicators ([P(v) <= q < P(v+1)] with q inside the window of w)"""
        v, h = binder
        va = v.as_atom()
        cands = []
        for m in body.t:
            ins = [a for a, e in m if a.kind == "ind" and va in a.fv]
            ms = [x for a in ins for x in collect_atoms(a, lambda x: x.kind == "msum")]
            if not any(va in x.fv for x in ms):
                return None
            for x in ms:
                if len(x.args[0]) == 1:
                    w = x.args[0][0][1]
                    wa = w.as_atom()
                    if wa is not None and wa.kind == "var" and wa is not va and w not in cands:
                        cands.append(w)
        ctx = self.ctx
        for w in cands:
            if any(x.args[0].startswith("#") for x in w.fv):
                continue
            if not (ctx.prove(mk_le(ZERO, w)) and ctx.prove(mk_lt(w, h))):
                continue
            ok = True
            for side in (mk_lt(v, w), mk_lt(w, v)):
                cs = c.assume(side)
                for m in body.t:
                    bs = [a.args[0] for a, e in m if a.kind == "ind" and va in a.fv]
                    if not cs.assume(*bs).inconsistent():
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return Simplifier(ctx, self.unfold, self.depth + 1).poly(subst(body, {va: w}))
        return None

    def post_sum(self, p):
        """Kronecker elimination may leave range indicators that the context decides"""
        if any(a.kind == "ind" for m in p.t for a, e in m):
            return Rewriter(leaf=lambda a, rw: self.leaf(a, rw) if a.kind == "ind" else (P(a))).poly(p)
        return p


def absorb_products(p, ctx):
    """g(-1) * Prod_{k<H} g(k) -> Prod_{k<H+1} g(k-1)   and   Prod_{k<H} g(k) * g(H) -> Prod_{k<H+1} g(k)   (H >= 0)"""
    if not any(a.kind == "mprod" for m in p.t for a, e in m):
        return p
    acc, changed = ZERO, False
    for m, c in p.t.items():
        new = None
        for a, e in m:
            if a.kind != "mprod" or e != 1 or len(a.args[0]) != 1:
                continue
            num, hi = a.args[0][0]
            for at, mk in ((P(-1), lambda v: (v - 1)), (hi, lambda v: v)):
                g = subst(a.args[1], {bvar(num): at})
                if len(g.t) != 1:
                    continue
                (gm, gc), = g.t.items()
                d = dict(m)
                del d[a]
                if gc == 0 or not gm or any(d.get(x, 0) < y for x, y in gm):
                    continue
                if not ctx.prove(mk_le(ZERO, hi)):
                    continue
                for x, y in gm:
                    d[x] -= y
                v = fresh("k")
                body = subst(a.args[1], {bvar(num): mk(v)})
                rest = Poly({tuple(sorted(((x, y) for x, y in d.items() if y), key=lambda z: z[0].id)): c / gc})
                new = rest * mk_prod(v, hi + 1, body)
                break
            if new is not None:
                break
        if new is None:
            acc = acc + Poly({m: c})
        else:
            changed = True
            acc = acc + new
    return acc if changed else p


def simp_trunc(p, ctx):
    t = trunc(p)
    if t.as_atom() is None or t.as_atom().kind != "trunc":
        return t
    # candidate: the integer-sorted part of p
    ip = Poly({m: c for m, c in p.t.items() if c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m)})
    for cand in (ip, ip - 1, ip + 1):
        if ctx.prove(mk_le(cand, p)) and ctx.prove(mk_lt(p, cand + 1)) and (ctx.prove(mk_le(ZERO, cand))):
            return cand
    return t


def simplify(p, ctx, unfold=None):
    for _ in range(4):
        q = Simplifier(ctx, unfold).poly(p)
        if q is p:
            break
        p = q
    return p


def clear_denoms(p):
    """multiply by all polyatom denominators; result has none (polyatoms with positive power expanded)"""
    for _ in range(12):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "polyatom":
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return p
        # take the polyatom of largest height first
        a = max(worst, key=lambda x: (x.height, x.id))
        e = worst[a]
        res = ZERO
        q = a.args[0]
        for m, c in p.t.items():
            d = dict(m)
            ea = d.pop(a, 0) - e
            rest = Poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
            res = res + rest * (q ** ea)
        p = res
    return p


class EqFail(Exception):
    pass


def prove_eq(ctx, a, b, unfold=None, depth=0, budget=None, info=None):
    """a == b as real terms under ctx"""
    t0 = time.time()
    STATS["eq_queries"] += 1
    try:
        return _prove_eq(ctx, a - b, unfold, 0, budget if budget is not None else [64], info)
    finally:
        STATS["eq_time"] += time.time() - t0


def eq_substs(ctx):
    """orient equalities of the context x == e into substitutions for variables"""
    sub = {}
    les = {f.args[0] for f in ctx.facts if f.kind == "le0"}
    for f in ctx.facts:
        if f.kind == "eq0" or (f.kind == "le0" and (-f.args[0]) in les):
            p = subst(f.args[0], sub) if sub else f.args[0]
            if p.is_const():
                continue
            for v in sorted(p.fv, key=lambda x: -x.id):
                if v.args[0].startswith("#"):
                    continue
                co = lin_coeff(p, v)
                if co is not None and co.is_const() and co.const() != 0:
                    e = P(v) - p * (1 / co.const())
                    if v.sort == "I" and not _norm_int(e):
                        continue
                    if v in e.fv:
                        continue
                    sub = {k: subst(x, {v: e}) for k, x in sub.items()}
                    sub[v] = e
                    break
    return sub


def app_substs(ctx):
    """orient equalities between applications: f(..) == e with f(..) not inside e"""
    out = {}
    for f in ctx.facts:
        if f.kind != "eq0":
            continue
        p = f.args[0]
        cand = [m[0][0] for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and abs(c) == 1
                and not any(v.args[0].startswith("#") for v in m[0][0].fv)]
        for a in sorted(cand, key=lambda x: -x.id):
            if a in out:
                continue
            c = p.t[((a, 1),)]
            e = P(a) - p * (1 / c)
            if any(x is a or x in out for x in collect_atoms(e)):
                continue
            out[a] = e
            break
    return out


def poly_divide(a, b):
    """multivariate division a = q*b + r by the leading monomial of b"""
    key = lambda m: (sum(e for _, e in m), sorted(((x.id, e) for x, e in m), reverse=True))
    if any(e < 0 for m in b.t for _, e in m) or b.is_zero():
        return ZERO, a
    lead = max(b.t, key=key)
    lc, dl = b.t[lead], dict(lead)
    q, r = ZERO, ZERO
    for _ in range(40):
        best = None
        for m, c in a.t.items():
            d = dict(m)
            if all(d.get(x, 0) >= e for x, e in dl.items()) and (c / lc).denominator == 1:
                if best is None or key(m) > key(best):
                    best = m
        if best is None:
            return q, a
        d = dict(best)
        t = Poly({tuple(sorted(((x, d[x] - dl.get(x, 0)) for x in d if d[x] - dl.get(x, 0)), key=lambda z: z[0].id)): a.t[best] / lc})
        q, a = q + t, a - t * b
    return q, a


def simp_divmod(ctx, p):
    """quotients and remainders whose value follows from the ranges in ctx"""
    if not collect_atoms(p, lambda x: x.kind in ("idiv", "imod")):
        return p

    def leaf(a, rw):
        if a.kind not in ("idiv", "imod"):
            return None
        x, y = rw.poly(a.args[0]), rw.poly(a.args[1])
        q, r = poly_divide(x, y)
        if ctx.prove(mk_lt(ZERO, y)) and ctx.prove(mk_le(ZERO, q), True) and ctx.prove(mk_le(ZERO, r), True) and ctx.prove(mk_lt(r, y), True):
            return q if a.kind == "idiv" else r
        return P(mk_atom(a.kind, (x, y), "I"))
    return Rewriter(leaf=leaf).poly(p)


def _prove_eq(ctx, d, unfold, depth, budget, info):
    if d.is_zero():
        return True
    d = simp_divmod(ctx, d)
    if d.is_zero():
        return True
    asub = app_substs(ctx)
    if asub:
        d = Rewriter(leaf=lambda a, rw: asub.get(a)).poly(d)
        if d.is_zero():
            return True
    sub = eq_substs(ctx)
    if sub:
        d = subst(d, sub)
        if d.is_zero():
            return True
    d = simplify(d, ctx, unfold)
    if d.is_zero():
        return True
    d2 = clear_denoms(d)
    if d2 is not d:
        d2 = simplify(d2, ctx, unfold)
        if d2.is_zero():
            return True
    d = d2
    if int_sorted(d) and ctx.prove(mk_eq0(d)):
        return True
    if ctx.inconsistent():
        return True
    # case split on an undecided indicator (top level first, then inside sums if closed)
    cands = []
    for m in d.t:
        for a, e in m:
            if a.kind == "ind":
                cands.append(a)
    if not cands:
        for a in collect_atoms(d, lambda x: x.kind == "ind"):
            if not any(v.args[0].startswith("#") for v in a.fv):
                cands.append(a)
    if cands and depth < 8 and budget[0] > 0:
        budget[0] -= 1
        a = min(cands, key=lambda x: (x.height, x.id))
        b = a.args[0]
        return _prove_eq(ctx.assume(b), d, unfold, depth + 1, budget, info) and \
            _prove_eq(ctx.assume(mk_not(b)), d, unfold, depth + 1, budget, info)
    if info is not None:
        info["residual"] = d
        info["ctx"] = ctx
    return False
