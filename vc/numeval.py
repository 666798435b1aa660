"""Numeric interpretation of terms: used only to tell a refuted obligation from one the prover could not settle."""
import math
import random
import time
from .terms import *


class NumFail(Exception):
    pass


class Interp:
    deadline = None

    """consistent random interpretation: variables and applications get values determined by (seed, name, arguments)"""

    def __init__(self, seed, imax=3, fixed=None):
        self.seed, self.imax = seed, imax
        self.fixed = fixed or {}
        self.memo = {}
        self.deadline = None

    def rnd(self, key, sort):
        r = random.Random("%s|%s" % (self.seed, key))
        if sort == "I":
            return r.randint(0, self.imax)
        return r.choice((r.uniform(0.2, 2.0), r.uniform(0.2, 2.0), r.uniform(-2.0, 2.0)))

    def app(self, name, args, sort):
        key = (name, args)
        v = self.fixed.get(key)
        if v is not None:
            return v
        return self.rnd("%s(%s)" % (name, ",".join(("%d" % a) if a == int(a) else ("%.12g" % a) for a in args)), sort)

    def poly(self, p, env):
        s = 0.0
        if self.deadline is not None and time.time() > self.deadline:
            raise NumFail("time")
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                v = self.atom(a, env)
                if v == 0 and e < 0:
                    raise NumFail("division by zero")
                x *= v ** e
            s += x
        return s

    def num(self, x, env):
        return self.poly(x, env)

    def atom(self, a, env):
        k = a.kind
        if k == "var":
            n = a.args[0]
            if n in env:
                return env[n]
            return self.app("$" + n, (), a.sort)
        if k == "app":
            return self.app(a.args[0], tuple(self.num(x, env) for x in a.args[1:]), a.sort)
        if k == "ind":
            return 1.0 if self.bool(a.args[0], env) else 0.0
        if k == "exp":
            return math.exp(min(50.0, self.num(a.args[0], env)))
        if k in ("pow", "powr"):
            b, e = self.num(a.args[0], env), self.num(a.args[1], env)
            try:
                r = b ** e
            except Exception:
                raise NumFail("pow")
            if isinstance(r, complex):
                raise NumFail("pow")
            return r
        if k == "sqrt":
            x = self.num(a.args[0], env)
            if x < 0:
                raise NumFail("sqrt")
            return math.sqrt(x)
        if k == "trunc":
            return float(math.trunc(self.num(a.args[0], env)))
        if k == "floor":
            return float(math.floor(self.num(a.args[0], env)))
        if k in ("idiv", "imod"):
            x, y = int(self.num(a.args[0], env)), int(self.num(a.args[1], env))
            if y == 0:
                raise NumFail("div")
            q = int(x / y)
            return float(q if k == "idiv" else x - q * y)
        if k == "polyatom":
            return self.num(a.args[0], env)
        if k in ("msum", "mprod"):
            return self.msum(a, env, k)
        raise NumFail(k)

    def msum(self, a, env, k):
        bs = a.args[0]

        def go(i, env):
            if i == len(bs):
                return self.poly(a.args[1], env)
            num, hi = bs[i]
            h = int(round(self.num(hi, env)))
            if h > 40:
                raise NumFail("range")
            name = bvar(num).args[0]
            r = 0.0 if k == "msum" else 1.0
            for j in range(h):
                e2 = dict(env)
                e2[name] = float(j)
                v = go(i + 1, e2)
                r = r + v if k == "msum" else r * v
            return r
        return go(0, env)

    def bool(self, b, env):
        k = b.kind
        if k == "const":
            return bool(b.args[0])
        if k == "le0":
            return self.num(b.args[0], env) <= 1e-12
        if k == "lt0":
            return self.num(b.args[0], env) < -1e-12
        if k == "eq0":
            return abs(self.num(b.args[0], env)) < 1e-9
        if k == "not":
            return not self.bool(b.args[0], env)
        if k == "and":
            return all(self.bool(x, env) for x in b.args)
        if k == "or":
            return any(self.bool(x, env) for x in b.args)
        if k == "bapp":
            return self.app(b.args[0], tuple(self.num(x, env) for x in b.args[1:]), "I") % 2 == 1
        raise NumFail(k)


def closure_facts(ctx, goal):
    from .prover import Query
    q = Query(ctx, goal if goal is not None else FALSE)
    facts, _ = q.closure()
    return facts


def models(ctx, extra=FALSE, tries=400, want=12, seed=0, budget=6.0):
    """interpretations satisfying the context (and its axiom instances)"""
    t0 = time.time()
    try:
        facts = closure_facts(ctx, extra)
    except Exception:
        facts = list(ctx.facts)
    out = []
    fixed0 = z3_fixed(ctx)
    for i in range(tries):
        if time.time() - t0 > budget:
            break
        I = Interp("%s-%d" % (seed, i), imax=1 + i % 5, fixed=fixed0 if i % 2 else None)
        I.deadline = t0 + budget
        try:
            if all(I.bool(f, {}) for f in facts):
                out.append(I)
                if len(out) >= want:
                    break
        except (NumFail, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
    return out


def z3_fixed(ctx):
    """values of integer variables / constants from a solver model"""
    try:
        md = ctx.model()
    except Exception:
        md = None
    fx = {}
    if md:
        for a, v in md.items():
            if a.kind == "var" and a.sort == "I":
                fx[("$" + a.args[0], ())] = float(v)
            elif a.kind == "app" and len(a.args) == 1:
                fx[(a.args[0], ())] = float(v)
    return fx


def refute_eq(ctx, resid):
    """True: a satisfying interpretation with a nonzero residual exists; False: satisfying ones found, all zero; None: none found"""
    ms = models(ctx, mk_eq0(resid))
    seen = False
    t1 = time.time() + 10.0
    for I in ms:
        I.deadline = t1
        try:
            v = I.poly(resid, {})
            scale = sum(abs(float(c)) for c in resid.t.values()) or 1.0
        except (NumFail, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        seen = True
        if abs(v) > 1e-6:
            return True
    return False if seen else None


def refute_bool(ctx, goal):
    ms = models(ctx.assume(mk_not(goal)), FALSE)
    return True if ms else None
