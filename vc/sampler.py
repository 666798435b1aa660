"""Numeric models of a context.  A goal that is false in one of them is not a consequence, so the solver need not be
asked (this only ever turns a query into "not proved")."""
import random
from .terms import *
from .numeval import Interp, NumFail

ERR = (NumFail, OverflowError, ZeroDivisionError, ValueError, TypeError, KeyError)
STATS = {"hit": 0, "miss": 0, "nomodel": 0}


class Mod(Interp):
    def __init__(self, seed, imax):
        self.seed, self.imax = seed, imax
        self.tab = {}
        self.pinned = set()

    def copy(self):
        m = Mod(self.seed, self.imax)
        m.tab = dict(self.tab)
        m.pinned = set(self.pinned)
        return m

    def app(self, name, args, sort):
        k = (name, args)
        v = self.tab.get(k)
        if v is None:
            r = random.Random("%s|%s|%s" % (self.seed, name, args))
            if sort == "I":
                v = float(r.randint(-3 if "~" in name else 0 if name[0] == "$" else 1, self.imax))
            else:
                v = r.choice((r.uniform(0.2, 2.0), r.uniform(0.2, 2.0), r.uniform(-2.0, 2.0)))
            self.tab[k] = v
        return v

    def fix(self, b):
        """make an equation true by changing one application value not pinned yet"""
        if b.kind == "or":
            for x in b.args:
                if x.kind == "eq0" and self.fix(x):
                    return True
            return False
        if b.kind == "and":
            return all(self.bool(x, {}) or self.fix(x) for x in b.args)
        if b.kind != "eq0":
            return False
        p = b.args[0]
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("app", "var"):
                a = m[0][0]
                k = (a.args[0], tuple(self.num(x, {}) for x in a.args[1:])) if a.kind == "app" else ("$" + a.args[0], ())
                if k in self.pinned:
                    continue
                old = self.tab.get(k)
                if old is None:
                    old = self.atom(a, {})
                v = old - self.poly(p, {}) / float(c)
                if a.sort == "I" and (v != int(v)):
                    continue
                self.tab[k] = v
                if abs(self.poly(p, {})) < 1e-9:
                    self.pinned.add(k)
                    return True
                self.tab[k] = old
        return False

    def check(self, facts):
        for rnd in range(3):
            ok = True
            for f in facts:
                if not self.bool(f, {}):
                    ok = False
                    if not self.fix(f):
                        return False
            if ok:
                return True
        return False


def assign(m, facts, seed):
    """choose values for the variables of facts not assigned yet, within the bounds the facts give"""
    r = random.Random(seed)
    order, seen = [], set()
    for f in facts:
        for v in sorted(f.fv, key=lambda x: x.id):
            if v not in seen:
                seen.add(v)
                order.append(v)
    todo = [v for v in order if ("$" + v.args[0], ()) not in m.tab and v.sort == "I"]
    done = {v for v in order if v not in todo}
    for v in todo:
        lo, hi, fx = None, None, None
        for f in facts:
            if v not in f.fv or f.kind not in ("le0", "lt0", "eq0") or not (f.fv <= done | {v}):
                continue
            co = lin_coeff(f.args[0], v)
            if co is None or not co.is_const() or co.const() == 0:
                continue
            c = float(co.const())
            m.tab[("$" + v.args[0], ())] = 0.0
            rest = m.poly(f.args[0], {})
            b = -rest / c
            if f.kind == "eq0":
                fx = b
            elif c > 0:
                b = b if f.kind == "le0" else b - 1
                hi = b if hi is None else min(hi, b)
            else:
                b = b if f.kind == "le0" else b + 1
                lo = b if lo is None else max(lo, b)
        if fx is not None:
            x = fx
        else:
            if lo is None:
                lo = -1 if hi is None else hi - 3
            if hi is None:
                hi = lo + 4
            lo, hi = int(-(-lo // 1)), int(hi // 1)
            if lo > hi:
                return False
            x = r.randint(lo, min(hi, lo + 6)) if r.random() < 0.8 else r.randint(max(lo, hi - 2), hi)
        if x != int(x):
            return False
        m.tab[("$" + v.args[0], ())] = float(x)
        done.add(v)
    return True


def models(ctx, want=6):
    ms = getattr(ctx, "_models", None)
    if ms is not None:
        return ms
    out = []
    par = ctx.parent
    if par is not None and par.axioms is ctx.axioms:
        pm = models(par, want)
        new = [f for f in ctx.facts if f not in par.fset]
        for i, m in enumerate(pm):
            m2 = m.copy()
            try:
                if assign(m2, new, i) and m2.check(ctx.facts):
                    out.append(m2)
            except ERR:
                pass
    tries = 16 if (par is None or getattr(par, "_models", None)) else 3
    big = len(ctx.facts) > 60
    for i in range(tries if not big else 2):
        if len(out) >= want:
            break
        m = Mod("s%d" % i, 2 + i % 4)
        try:
            if assign(m, ctx.facts, i) and m.check(ctx.facts):
                out.append(m)
        except ERR:
            pass
    ctx._models = out
    return out


def falsified(ctx, goal, closure):
    """closure(): facts plus the axiom instances for the goal's atoms"""
    ms = models(ctx)
    if not ms:
        STATS["nomodel"] += 1
        return False
    facts = None
    for m in ms:
        try:
            if m.bool(goal, {}):
                continue
            if facts is None:
                facts = [f for f in closure() if f not in ctx.fset]
            m2 = m.copy()
            if m2.check(facts) and not m2.bool(goal, {}) and m2.check(ctx.facts) and not m2.bool(goal, {}) \
                    and all(m2.bool(f, {}) for f in facts):
                STATS["hit"] += 1
                return True
        except ERR:
            pass
    STATS["miss"] += 1
    return False
