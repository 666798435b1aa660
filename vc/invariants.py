"""Loop invariants supplied by contracts.  Each is tried on the components a loop leaves unresolved; it is used
only if initiation and preservation are proved on the generic iteration."""
from .loops import *
from .loops import Resolver


def value_eq(ctx, a, b, unfold=None, info=None, nested=True):
    """a == b for all components (vectors: same length and same cells)"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return prove_eq(ctx, a, b, unfold, info=info)
    if isinstance(a, VecVal) and isinstance(b, VecVal):
        if not prove_eq(ctx, a.len, b.len, unfold, info=info):
            return False
        dec = getattr(b.arr, "decomp", None)
        if dec is not None:
            # compare cell-wise over the index decomposition of the specification
            idx, rng, val = dec()
            c = ctx.assume(*rng)
            return value_eq(c, a.arr.read(idx, c), val, unfold, info)
        decs = getattr(b.arr, "decomps", None)
        if decs is not None:
            return all(value_eq(ctx.assume(*rng), a.arr.read(idx, ctx.assume(*rng)), val, unfold, info) for idx, rng, val in decs())
        i = fresh("e")
        c = ctx.assume(mk_le(ZERO, i), mk_lt(i, b.len))
        return value_eq(c, a.arr.read(i, c), b.arr.read(i, c), unfold, info)
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        return all(value_eq(ctx, a.f[k], b.f[k], unfold, info) for k in b.f)
    return False


def frozen_vars(L, c, tt):
    frozen = set(tt.fv)
    for f in L.st.ctx.facts:
        frozen |= f.fv
    for ps, g, idx in c.updates:
        frozen |= g.fv | idx.fv
    return frozen


class GridArr(UpdArr):
    """specification array: cell idx(params) == val(params) for all parameters in range; other cells unknown"""
    __slots__ = ()

    def __init__(self, params, idx, val):
        UpdArr.__init__(self, SymArr("unspecified!%d" % next(FRESH), (), ("double",), None), params, TRUE, idx, val)

    def decomp(self):
        fs = self.fresh_instance()
        idx, val, g = self.instance(fs)
        return idx, [g], val


class Inv:
    """log of what was proved, for the evidence"""
    def __init__(self):
        self.log = []

    def hit(self, L, c, a, tt, ctx):
        """condition under which some iteration before tt wrote cell a (None: unknown)"""
        conds = []
        ta = L.t.as_atom()
        for ps, g, idx in c.updates:
            t2 = fresh("t")
            sub = {ta: t2}
            prm = [(t2, tt)]
            for v, h in ps:
                q = fresh("p")
                prm.append((q, subst(h, sub)))
                sub[v.as_atom()] = q
            idx2, g2 = subst(idx, sub), subst(g, sub)
            sol = solve_index(idx2, tuple(prm), a, ctx)
            if sol is None:
                fs = []
                for v, h in prm:
                    fs += [mk_le(ZERO, v), mk_lt(v, h)]
                if prove_ne(ctx.assume(*fs).assume(g2), idx2 - a):
                    continue
                return None
            sb = {v.as_atom(): q for (v, h), q in zip(prm, sol)}
            conds.append(mk_and(subst(g2, sb), *[x for (v, h), q in zip(prm, sol) for x in (mk_le(ZERO, q), mk_lt(q, subst(h, sb)))]))
        return mk_or(*conds)


class CellSpec(Inv):
    """cell a, once written, holds spec(a); cells read before they are written already hold it.
       spec(a, ctx) -> Value or None        definition(a, ctx) -> Value: the defining equation used for preservation"""
    def __init__(self, accepts, spec, definition=None, unfold=None, what="cell specification"):
        Inv.__init__(self)
        self.accepts, self.spec, self.definition, self.unfold, self.what = accepts, spec, definition or spec, unfold, what

    def __call__(self, L):
        done = False
        for c in L.comps:
            if c.resolved or c.kind != "a" or c.nxt is None or not c.updates or not self.accepts(c):
                continue
            done |= self.one(L, c)
        return done

    def one(self, L, c):
        t = L.t

        def cell(a, tt, ctx):
            h = self.hit(L, c, a, tt, ctx)
            if h is None:
                return None
            sp = self.spec(a, ctx)
            if sp is None:
                return None
            if ctx.prove(h):
                return sp
            nc = ctx.assume(mk_not(h))
            if nc.inconsistent():
                return sp
            info = {}
            try:
                if value_eq(nc, c.v0.read(a, nc), sp, self.unfold, info):
                    return sp
            except Unsupported as e:
                info["residual"] = str(e)
            self.why = "unwritten cell %s: %s" % (a, info.get("residual"))
            return None
        c.cell = cell
        R = Resolver(L)
        ok = True
        info = {}
        try:
            for ps, g, idx in c.updates:
                uc = L.rectx(ps, g)
                v = R.value(c.nxt.read(idx, uc), uc)
                if L.unresolved_in(v):
                    ok = False
                    info["residual"] = "depends on cells without a specification; " + getattr(self, "why", "")
                    break
                d = self.definition(idx, uc)
                if d is None or not value_eq(uc, v, d, self.unfold, info):
                    ok = False
                    break
        except Unsupported as e:
            ok = False
            info["residual"] = str(e)
        if not ok:
            c.cell = None
            self.log.append((self.what, False, str(info.get("residual", ""))[:400]))
            return False
        ta = t.as_atom()

        def at(tt):
            a = c.v0
            for ps, g, idx in c.updates:
                t2 = fresh("t")
                sub = {ta: t2}
                nps = [(t2, tt)]
                cc = L.st.ctx.assume(mk_le(ZERO, t2), mk_lt(t2, tt))
                for pv, h in ps:
                    q = fresh("p")
                    h2 = subst(h, sub)
                    sub = dict(sub)
                    sub[pv.as_atom()] = q
                    nps.append((q, h2))
                    cc = cc.assume(mk_le(ZERO, q), mk_lt(q, h2))
                i2 = subst(idx, sub)
                a = UpdArr(a, nps, subst(g, sub), i2, self.spec(i2, cc))
            return SpecArr(a, lambda k, ctx: cell(k, tt, ctx), frozen_vars(L, c, tt))
        c.arr_at = at
        c.how = self.what
        self.log.append((self.what, True, ""))
        L.ex.oblige_done("loop invariant", "%s: initiation and preservation" % self.what)
        return True


class FrontierSpec(Inv):
    """at the start of iteration t, cell front(t) holds spec(t) (other cells: nothing claimed)"""
    def __init__(self, accepts, front, spec, definition, unfold=None, what="frontier invariant"):
        Inv.__init__(self)
        self.accepts, self.front, self.spec, self.definition, self.unfold, self.what = accepts, front, spec, definition, unfold, what

    def __call__(self, L):
        done = False
        for c in L.comps:
            if c.resolved or c.kind != "a" or c.nxt is None or not c.updates or not self.accepts(c):
                continue
            done |= self.one(L, c)
        return done

    def one(self, L, c):
        t = L.t

        def cell(a, tt, ctx):
            if prove_eq(ctx, a, self.front(tt)):
                return self.spec(tt, ctx)
            h = self.hit(L, c, a, tt, ctx)
            if h is not None and ctx.refute(h):
                return c.v0.read(a, ctx)        # not written yet
            return None
        info = {}
        ok = True
        try:
            c0 = L.st.ctx
            # initiation (only needed if the frontier is inside the array, which the contract guarantees)
            if not value_eq(c0, c.v0.read(self.front(ZERO), c0), self.spec(ZERO, c0), self.unfold, info):
                ok = False
            c.cell = cell
            if ok:
                R = Resolver(L)
                uc = L.tctx
                f1 = self.front(t + 1)
                v = R.value(c.nxt.read(f1, uc), uc)
                if L.unresolved_in(v):
                    ok = False
                    info["residual"] = "depends on cells without a specification; " + getattr(self, "why", "")
                elif not value_eq(uc, v, self.definition(t + 1, uc), self.unfold, info):
                    ok = False
        except Unsupported as e:
            ok = False
            info["residual"] = str(e)
        if not ok:
            c.cell = None
            self.log.append((self.what, False, str(info.get("residual", ""))[:400]))
            return False
        def at(tt):
            a = UpdArr(SymArr(c.name, (tt,), c.et, L.ex.prog), [], TRUE, self.front(tt), self.spec(tt, L.st.ctx))
            return SpecArr(a, lambda k, ctx: cell(k, tt, ctx), frozen_vars(L, c, tt))
        c.arr_at = at
        c.how = self.what
        self.log.append((self.what, True, ""))
        L.ex.oblige_done("loop invariant", "%s: initiation and preservation" % self.what)
        return True


class WholeInv:
    """the container at a location of the loop equals spec(t) at the start of iteration t (all components).
       specs(L, v) -> list of functions tt -> Value that hold initially for the value v of a location, or []"""
    def __init__(self, specs, what, unfold=None):
        self.specs, self.what, self.unfold, self.log = specs, what, unfold, []

    def candidates(self, L):
        fix = {}
        for k, (path, whole, v, cs) in enumerate(L.by_loc):
            if not whole:
                continue
            for sp in self.specs(L, v):
                info = {}
                try:
                    if value_eq(L.st.ctx, v, sp(ZERO), self.unfold, info):
                        fix[k] = sp
                        break
                    self.log.append("initially: %s" % (info.get("residual"),))
                except Unsupported as e:
                    self.log.append("initially: %s" % (e,))
        return fix
