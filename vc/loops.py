"""Loops.  A loop is executed once at a generic iteration t; its effect after any number of iterations is
derived (induction variables, sums, disjoint writes, accumulations) or taken from a loop invariant supplied
by the contract (cell specifications, conserved quantities) that is checked for initiation and preservation."""
import re
from .exec import *
from .values import *

_SER = re.compile(r"[~!](\d+)")
_CN = re.compile(r"^(.*~\d+)(\..*)?$")
UNROLL = 6


def serial(name):
    m = _SER.findall(name)
    return max(int(x) for x in m) if m else -1


def is_variant(p, wm):
    for a in collect_atoms(p):
        if a.kind in ("app", "var") and serial(a.args[0]) >= wm:
            return True
    return False


def comp_names_in(x):
    """base names of havoc components mentioned in a term"""
    out = set()
    for a in collect_atoms(x):
        if a.kind == "app":
            m = _CN.match(a.args[0])
            if m:
                out.add(m.group(1))
    if isinstance(x, B):
        bapp_names(x, out)
    return out


def bapp_names(b, out):
    if b.kind == "bapp":
        m = _CN.match(b.args[0])
        if m:
            out.add(m.group(1))
    elif b.kind in ("and", "or", "not"):
        for y in b.args:
            bapp_names(y, out)


def value_names(v, out=None):
    """havoc components mentioned anywhere in a value"""
    if out is None:
        out = set()
    if isinstance(v, (Poly, B)):
        out |= comp_names_in(v)
    elif isinstance(v, VecVal):
        out |= comp_names_in(v.len)
        arr_names(v.arr, out)
    elif isinstance(v, StructVal):
        for y in v.f.values():
            value_names(y, out)
    elif isinstance(v, (PtrVal, RevIt)):
        path_names(v.path, out)
        if v.off is not None:
            out |= comp_names_in(v.off)
    elif isinstance(v, SpanVal):
        path_names(v.path, out)
        out |= comp_names_in(v.off) | comp_names_in(v.len)
    return out


def path_names(path, out):
    if path is None:
        return
    for k, s in path[1]:
        if k == "i":
            out |= comp_names_in(s)


def arr_names(a, out):
    if isinstance(a, SymArr):
        m = _CN.match(a.name)
        if m:
            out.add(m.group(1))
        for x in a.args:
            out |= comp_names_in(x)
    elif isinstance(a, ConstArr):
        value_names(a.val, out)
    elif isinstance(a, ListArr):
        for x in a.vals:
            value_names(x, out)
    elif isinstance(a, ResizeArr):
        arr_names(a.base, out)
        out |= comp_names_in(a.n)
        value_names(a.fill, out)
    elif isinstance(a, IteArr):
        out |= comp_names_in(a.c)
        arr_names(a.a, out)
        arr_names(a.b, out)
    elif isinstance(a, ShiftArr):
        arr_names(a.base, out)
        out |= comp_names_in(a.off)
    elif isinstance(a, UpdArr):
        arr_names(a.base, out)
        out |= comp_names_in(a.guard) | comp_names_in(a.idx)
        for _, h in a.params:
            out |= comp_names_in(h)
        value_names(a.val, out)
    elif isinstance(a, LamArr):
        pass
    return out


# ---------------------------------------------------------------- components
class Comp:
    def __init__(self, name, kind, sort, v0, path, getter, et=None):
        self.name, self.kind, self.sort, self.v0, self.path, self.get, self.et = name, kind, sort, v0, path, getter, et
        self.reset()

    def reset(self):
        self.delta = None       # affine step
        self.nxt = None
        self.tmpl = None        # scalars: closed form in t
        self.arr_at = None      # arrays: function tt -> Arr
        self.updates = None
        self.how = None

    @property
    def resolved(self):
        return self.tmpl is not None or self.arr_at is not None


def type_at(ex, path, st):
    """declared type at a path, or None"""
    root, sels = path
    t = root.ty
    for k, s in sels:
        if t is None:
            return None
        if t[0] == "uptr":
            t = t[1]
        if k == "f":
            if t[0] == "struct":
                t = next((ntype(ty) for n, ty, _ in ex.prog.fields.get(t[1], []) if n == s), None)
            elif t[0] == "tuple":
                t = t[1][int(s)]
            else:
                return None
        else:
            t = t[1] if t[0] in ("vec", "arr", "span", "ptr") else None
    return t


def havoc(ex, v, t, name, tt, whole, path, comps, getter):
    """opaque value of the same shape; appends components"""
    def nm(suffix=""):
        return "%s%s~%d" % (name, suffix, next(FRESH))
    if isinstance(v, Poly):
        sort = "I" if (t is not None and t[0] == "int") else "R"
        c = Comp(nm(), "s", sort, v, path, getter)
        comps.append(c)
        return app(c.name, (tt,), sort)
    if isinstance(v, B):
        c = Comp(nm(), "b", "B", v, path, getter)
        comps.append(c)
        return bapp(c.name, (tt,))
    if isinstance(v, VecVal):
        c = Comp(nm(), "a", None, v.arr, path, lambda w, g=getter: g(w).arr, v.et)
        comps.append(c)
        ln = v.len
        if whole:
            lc = Comp(nm("#len"), "s", "I", v.len, path, lambda w, g=getter: g(w).len)
            comps.append(lc)
            ln = app(lc.name, (tt,), "I")
        return VecVal(ln, SymArr(c.name, (tt,), v.et, ex.prog), v.et)
    if isinstance(v, StructVal):
        f = {}
        for k, x in v.f.items():
            ft = None
            if t is not None and t[0] == "struct":
                ft = next((ntype(ty) for n, ty, _ in ex.prog.fields.get(t[1], []) if n == k), None)
            elif t is not None and t[0] == "tuple":
                ft = t[1][int(k)]
            f[k] = havoc(ex, x, ft, name + "_" + k, tt, True, path, comps, lambda w, g=getter, k=k: g(w).f[k])
        return StructVal(v.cls, f)
    if isinstance(v, PtrVal) and v.off is not None:
        c = Comp(nm(), "s", "I", v.off, path, lambda w, g=getter: g(w).off)
        comps.append(c)
        return PtrVal(v.path, app(c.name, (tt,), "I"))
    if isinstance(v, SpanVal):
        c = Comp(nm(), "s", "I", v.off, path, lambda w, g=getter: g(w).off)
        c2 = Comp(nm("#len"), "s", "I", v.len, path, lambda w, g=getter: g(w).len)
        comps += [c, c2]
        return SpanVal(v.path, app(c.name, (tt,), "I"), app(c2.name, (tt,), "I"))
    return Opaque("loop-modified value")


def rebuild_value(v, comps_it, at):
    """same traversal order as havoc; at(comp) -> Poly or Arr"""
    if isinstance(v, (Poly, B)):
        return at(next(comps_it))
    if isinstance(v, VecVal):
        raise AssertionError
    raise AssertionError


def build(ex, v, whole, it, at):
    if isinstance(v, (Poly, B)):
        return at(next(it))
    if isinstance(v, VecVal):
        arr = at(next(it))
        ln = at(next(it)) if whole else v.len
        return VecVal(ln, arr, v.et)
    if isinstance(v, StructVal):
        return StructVal(v.cls, {k: build(ex, x, True, it, at) for k, x in v.f.items()})
    if isinstance(v, PtrVal) and v.off is not None:
        return PtrVal(v.path, at(next(it)))
    if isinstance(v, SpanVal):
        o = at(next(it))
        return SpanVal(v.path, o, at(next(it)))
    return Opaque("loop-modified value")


# ---------------------------------------------------------------- entry points
def null(n):
    return not n or not n.get("kind")


def exec_for(ex, n, st, fr):
    init, cvar, cond, inc, body = (list(n["inner"]) + [{}] * 5)[:5]
    if not null(init):
        outs = ex.exec_stmt(init, st, fr)
        if len(outs) != 1 or outs[0].kind != "next":
            raise Unsupported("loop initialiser")
        st = outs[0].st
    if null(cond):
        raise Unsupported("loop without condition")

    def cond_fn(s):
        return ex.as_bool(ex.eval(cond, s, fr))

    def iter_fn(s):
        return iterate(ex, s, fr, body, lambda s2: None if null(inc) else ex.eval(inc, s2, fr))
    return run_loop(ex, st, fr, cond_fn, iter_fn)


def exec_while(ex, n, st, fr):
    kids = [c for c in n["inner"] if c.get("kind")]
    if len(kids) != 2:
        raise Unsupported("while with declaration")
    cond, body = kids

    def cond_fn(s):
        return ex.as_bool(ex.eval(cond, s, fr))

    def iter_fn(s):
        return iterate(ex, s, fr, body, lambda s2: None)
    return run_loop(ex, st, fr, cond_fn, iter_fn)


def exec_range_for(ex, n, st, fr):
    kids = n["inner"]
    decls = [c for c in kids if c.get("kind") == "DeclStmt"]
    rng = None
    loopvar = None
    for d in decls:
        v = d["inner"][0]
        if v.get("name", "").startswith("__range"):
            rng = v
        elif not v.get("name", "").startswith("__"):
            loopvar = v
    body = kids[-1]
    if rng is None or loopvar is None:
        raise Unsupported("range-for form")
    init = [c for c in rng["inner"] if c.get("kind")][-1]
    path = ex.lval(init, st, fr)
    v = ex.read_path(path, st)
    off = ZERO
    if isinstance(v, SpanVal):
        path, off, ln = v.path, v.off, v.len
    elif isinstance(v, VecVal):
        ln = v.len
    else:
        raise Unsupported("range-for over %r" % (type(v),))
    ir = ex.new_root("range_i", ZERO, st, ("int", 64, True))

    def cond_fn(s):
        return mk_lt(ex.num(s.mem[ir]), ln)

    def iter_fn(s):
        i = s.mem[ir]
        ep = (path[0], path[1] + (("i", off + i),))
        if is_ref(loopvar["type"]):
            fr.vars[loopvar["id"]] = ("path", ep)
        else:
            fr.vars[loopvar["id"]] = ("root", ex.new_root(loopvar.get("name", "elem"), ex.read_path(ep, s), s,
                                                          ntype(loopvar["type"])))
        if loopvar["kind"] == "DecompositionDecl":
            e = fr.vars[loopvar["id"]]
            base = (e[1], ()) if e[0] == "root" else e[1]
            bv = ex.read_path(base, s)
            for q, b in enumerate([c for c in loopvar.get("inner", []) if c.get("kind") == "BindingDecl"]):
                sel = ("f", list(bv.f)[q]) if isinstance(bv, StructVal) else ("i", P(q))
                fr.vars[b["id"]] = ("path", (base[0], base[1] + (sel,)))
        return iterate(ex, s, fr, body, lambda s2: ex.write_path((ir, ()), s2.mem[ir] + 1, s2))
    return run_loop(ex, st, fr, cond_fn, iter_fn)


def iterate(ex, s, fr, body, inc):
    base = s.copy()
    outs = ex.exec_stmt(body, s, fr)
    nx = [o for o in outs if o.kind in ("next", "cont")]
    rest = [o for o in outs if o.kind not in ("next", "cont")]
    if nx:
        for o in nx:
            o.kind, o.val = "next", None
        ex.merge_outs(nx, base)
        inc(base)
        rest.append(Outcome("next", base))
    return rest


# ---------------------------------------------------------------- the loop rule
def run_loop(ex, st, fr, cond_fn, iter_fn):
    # few concrete iterations: unroll
    r = try_unroll(ex, st, cond_fn, iter_fn)
    if r is not None:
        return r
    L = Loop(ex, st, cond_fn, iter_fn)
    if ex.loc:
        return L.run_loc()
    return L.run()


def try_unroll(ex, st, cond_fn, iter_fn):
    """unroll loops whose condition is decided by constants only"""
    probe = st.copy()
    probe.wlog = []
    ex.dry += 1
    try:
        c = cond_fn(probe)
    finally:
        ex.dry -= 1
    if c is FALSE:
        cond_fn(st)
        return [Outcome("next", st)]
    if c is not TRUE:
        return None
    # find the constant trip count without touching the state
    cur = st.copy()
    cur.wlog = []
    cur.throws = []
    ex.dry += 1
    n = 0
    try:
        while n <= UNROLL:
            c = cond_fn(cur)
            if c is not TRUE:
                break
            outs = iter_fn(cur)
            n += 1
            if len(outs) != 1 or outs[0].kind != "next":
                return None
            cur = outs[0].st
        else:
            return None
    except Unsupported:
        return None
    finally:
        ex.dry -= 1
    if c is not FALSE:
        return None
    cur = st
    for _ in range(n):
        cond_fn(cur)
        outs = iter_fn(cur)
        if len(outs) != 1 or outs[0].kind != "next":
            raise Unsupported("early exit in an unrolled loop")
        cur = outs[0].st
    cond_fn(cur)
    return [Outcome("next", cur)]


class NotPreserved(Exception):
    pass


class Loop:
    fixed = {}

    def __init__(self, ex, st, cond_fn, iter_fn):
        self.ex, self.st, self.cond_fn, self.iter_fn = ex, st, cond_fn, iter_fn
        self.wm = next(FRESH)
        self.t = fresh("t")
        self.locs = []       # [(path, whole)]

    # ------------------------------------------------------------ locations
    def add_write(self, path):
        """returns True if a new location was added"""
        root, sels = path
        if root not in self.st.mem:
            return False
        cut = len(sels)
        for j, (k, s) in enumerate(sels):
            if k == "i" and is_variant(s, self.wm):
                cut = j
                break
        loc, whole = (root, sels[:cut]), cut == len(sels)
        # already covered?
        for i, (p, w) in enumerate(self.locs):
            if p[0] is root and len(p[1]) <= len(loc[1]) and same_path(p, (root, loc[1][:len(p[1])])):
                if len(p[1]) == len(loc[1]) and whole and not w:
                    self.locs[i] = (p, True)
                    return True
                return False
        # drop longer ones
        keep, rest = [], []
        for p, w in self.locs:
            if p[0] is root and len(p[1]) > len(loc[1]) and same_path((root, p[1][:len(loc[1])]), loc):
                continue
            keep.append((p, w))
        # possible aliasing of different element paths of one array: merge to the array
        for p, w in keep:
            if p[0] is root:
                m = 0
                while m < min(len(p[1]), len(loc[1])) and p[1][m][0] == loc[1][m][0] and (p[1][m][1] is loc[1][m][1] or p[1][m][1] == loc[1][m][1]):
                    m += 1
                if m < min(len(p[1]), len(loc[1])) and p[1][m][0] == "i":
                    if not prove_ne(self.st.ctx, p[1][m][1] - loc[1][m][1]):
                        self.locs = [x for x in keep if x[0] is not p]
                        return self.add_write((root, loc[1][:m] + (("i", fresh("w")),))) or True
        self.locs = keep + [(loc, whole)]
        return True

    def install(self, s, tt):
        """havoc all locations of s; returns comps per location"""
        ex = self.ex
        self.comps, self.by_loc = [], []
        for path, whole in self.locs:
            loc, ex.loc = ex.loc, ex.loc - 1       # initial values: cheap only if an enclosing loop looks for locations
            v = ex.read_path(path, self.st)
            ex.loc = loc
            cs = []
            nm = path[0].name + "".join("." + x if k == "f" else "[]" for k, x in path[1])
            nm = nm.replace(".", "_").replace("~", "_")
            hv = havoc(ex, v, type_at(ex, path, self.st), nm, tt, whole, path, cs,
                       lambda w: w)
            self.by_loc.append((path, whole, v, cs))
            self.comps += cs
            w = s.wlog
            s.wlog = None
            ex.write_path(path, hv, s)
            s.wlog = w

    def set_comp_values(self, s, at, tt=None):
        for k, (path, whole, v, cs) in enumerate(self.by_loc):
            nv = self.fixed[k](tt) if k in self.fixed else build(self.ex, v, whole, iter(cs), at)
            w = s.wlog
            s.wlog = None
            self.ex.write_path(path, nv, s)
            s.wlog = w

    def opaque_at(self, c, tt):
        if c.kind == "s":
            return app(c.name, (tt,), c.sort)
        if c.kind == "b":
            return bapp(c.name, (tt,))
        return SymArr(c.name, (tt,), c.et, self.ex.prog)

    def find_locations(self):
        ex = self.ex
        ex.dry += 1
        ex.loc += 1
        try:
            for rnd in range(8):
                s = self.st.copy()
                s.wlog, s.throws = [], []
                self.install(s, self.t)
                s.ctx = s.ctx.assume(mk_le(ZERO, self.t))
                c = self.cond_fn(s)
                s.assume(c)
                base = s.copy()
                outs = self.iter_fn(s)
                new = False
                for p in s.wlog:
                    new |= self.add_write(p)
                if not new:
                    nx = [o for o in outs if o.kind == "next"]
                    self.exits = [o.kind for o in outs if o.kind != "next"]
                    if nx:
                        ex.merge_outs(nx, base)
                    self.loc_end = base if nx else None
                    return
            raise Unsupported("loop modifies an unbounded set of locations")
        finally:
            ex.dry -= 1
            ex.loc -= 1

    def log_outer(self):
        if self.st.wlog is not None:
            for path, whole in self.locs:
                if whole:
                    self.st.wlog.append(path)
                else:
                    self.st.wlog.append((path[0], path[1] + (("i", fresh("w")),)))

    def run_loc(self):
        """location mode inside an enclosing loop: havoc everything the loop may write"""
        self.find_locations()
        s = self.st
        self.log_outer()
        n = app("iters~%d" % next(FRESH), (), "I")
        self.set_comp_values(s, lambda c: self.opaque_at(c, n))
        return [Outcome("next", s)]

    # ------------------------------------------------------------ main
    def run(self):
        ex = self.ex
        self.find_locations()
        if self.exits:
            raise Unsupported("loop with an early exit (%s)" % self.exits[0])
        if self.loc_end is None:
            raise Unsupported("loop body never completes")
        self.fixed = {}
        if ex.whole and not ex.dry:
            # invariants of the contract on whole containers: value at the start of iteration t == spec(t)
            st0, obls, pend, log = self.st, list(ex.obls), list(ex.pending), list(ex.loop_log)
            for inv in ex.whole:
                fix = inv.candidates(self)
                if not fix:
                    continue
                self.fixed, self.st = fix, st0.copy()
                saved = list(self.comps)
                self.comps = [c for k, (path, whole, v, cs) in enumerate(self.by_loc) if k not in fix for c in cs]
                try:
                    r = self.run_body()
                except (Unsupported, NotPreserved) as e:
                    inv.log.append(str(e)[:300])
                    ex.obls, ex.pending, ex.loop_log = list(obls), list(pend), list(log)
                    self.fixed, self.st, self.comps = {}, st0, saved
                    for c in saved:
                        c.reset()
                    continue
                ex.oblige_done("loop invariant", "%s: initiation and preservation" % inv.what)
                return r
        return self.run_body()

    def run_body(self):
        ex, t = self.ex, self.t
        # affine induction variables
        for path, whole, v, cs in self.by_loc:
            try:
                nv = ex.read_path(path, self.loc_end)
            except Unsupported:
                continue
            for c in cs:
                if c.kind != "s":
                    continue
                try:
                    d = c.get(nv) - app(c.name, (t,), c.sort)
                except Exception:
                    continue
                if not is_variant(d, self.wm):
                    c.delta = d
        # generic iteration
        s = self.st.copy()
        s.wlog, s.throws = [], []
        ct = s.ctx.assume(mk_le(ZERO, t))
        s.ctx = ct

        def at_t(c):
            if c.delta is not None:
                return c.v0 + c.delta * t
            return self.opaque_at(c, t)
        self.set_comp_values(s, at_t, t)
        ncw = len(s.wlog)
        cond = self.cond_fn(s)
        cond_writes = len(s.wlog) > ncw
        N = self.trip_count(cond, ct)
        if N is None:
            raise Unsupported("trip count of loop condition %s" % (cond,))
        N = simplify(N, self.st.ctx)
        if not self.st.ctx.prove(mk_le(ZERO, N)):
            if self.st.ctx.prove(mk_le(N, ZERO)):
                if cond_writes:
                    self.cond_fn(self.st)
                return [Outcome("next", self.st)]
            N = ite(mk_le(ZERO, N), N, ZERO)
        self.N = N
        s.ctx = self.st.ctx.assume(mk_le(ZERO, t), mk_lt(t, N))
        self.tctx = s.ctx
        saved_pending, ex.pending = ex.pending, []
        ex.loop_depth += 1
        base = s.copy()
        try:
            outs = self.iter_fn(s)
        except Exception:
            ex.pending = saved_pending
            raise
        finally:
            ex.loop_depth -= 1
        pend, ex.pending = ex.pending, saved_pending
        if any(o.kind != "next" for o in outs):
            ex.pending = saved_pending
            raise Unsupported("loop with an early exit")
        for p in s.wlog:
            if p[0] in self.st.mem and not self.covered(p):
                raise Unsupported("loop writes an unexpected location")
        if outs:
            ex.merge_outs(outs, base)
            end = base
        else:
            end = None
        if end is not None:
            for path, whole, v, cs in self.by_loc:
                nv = ex.read_path(path, end)
                for c in cs:
                    try:
                        c.nxt = c.get(nv)
                    except Exception:
                        c.nxt = None
            self.resolve()
            for k, spec in self.fixed.items():
                nv = ex.read_path(self.by_loc[k][0], end)
                R = Resolver(self)
                if not self.fixed_eq(R.value(nv, self.tctx), spec(t + 1)):
                    raise NotPreserved("not preserved: %s" % (self.why,))
        # pending obligations and throws of the generic iteration
        R = Resolver(self)
        for ob in pend:
            self.retry(ob, R)
        for pc, c, msg in s.throws:
            c2 = self.map_ctx(c, R)
            if not c2.inconsistent():
                self.st.throws.append((None, c2, msg))
        if end is None:
            # no iteration completes
            self.st.ctx = self.st.ctx.assume(mk_eq(N, ZERO))
            return [Outcome("next", self.st)]
        self.log_outer()
        self.set_comp_values(self.st, lambda c: simplify(self.at(c, N), self.st.ctx) if c.kind == "s" and c.resolved else self.at(c, N), N)
        if cond_writes:
            self.cond_fn(self.st)          # the evaluation that ends the loop
        for c in self.comps:
            if not c.resolved:
                ex.opaque.add(c.name)
        ex.loop_log.append((ex.fn_names[-1] if ex.fn_names else "?", [(c.name, c.how) for c in self.comps]))
        if ex.after_loop is not None and not ex.loop_depth and not ex.dry:
            ex.after_loop(self.st)
        return [Outcome("next", self.st)]

    def fixed_eq(self, a, b):
        from .invariants import value_eq
        info = {}
        if isinstance(a, (Poly, B)) and self.unresolved_in(a):
            self.why = "depends on other loop state"
            return False
        ok = value_eq(self.tctx, a, b, self.ex.whole_unfold, info)
        self.why = str(info.get("residual"))[:200]
        return ok

    def covered(self, p):
        for q, w in self.locs:
            if q[0] is p[0] and len(q[1]) <= len(p[1]) and \
                    all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) for a, b in zip(q[1], p[1])):
                return True
        return False

    def map_ctx(self, c, R):
        return Ctx([R.bool(f, c) for f in c.facts], c.axioms)

    def retry(self, ob, R):
        ex = self.ex
        old = ob.ctx
        g = R.bool(ob.goal, old)
        c = self.map_ctx(old, R)
        ob.goal, ob.ctx = g, c
        if c.prove(g):
            ob.status = "discharged"
            ex.obls.append(ob)
        elif ex.loop_depth:
            ex.pending.append(ob)
        else:
            ok = c.prove(g, True)
            if not ok:
                g2 = Simplifier(c).rw.bool(g)
                ok = g2 is not g and c.prove(g2, True)
            ob.status = "discharged" if ok else "failed"
            ex.obls.append(ob)

    def at(self, c, tt):
        ta = self.t.as_atom()
        if c.delta is not None:
            return c.v0 + c.delta * tt
        if c.tmpl is not None:
            return subst(c.tmpl, {ta: tt})
        if c.arr_at is not None:
            return c.arr_at(tt)
        return self.opaque_at(c, tt)

    # ------------------------------------------------------------ trip count
    def trip_count(self, b, ctx):
        t = self.t.as_atom()
        if b is FALSE:
            return ZERO
        if b.kind == "and":
            ns = []
            for x in b.args:
                if t not in x.fv and not is_variant(x, self.wm):
                    d = ctx.decide(x)
                    if d is False:
                        return ZERO
                    if d is None:
                        return None
                    continue
                n = self.trip_count(x, ctx)
                if n is None:
                    if ctx.prove(x):
                        continue
                    return None
                ns.append(n)
            if not ns:
                return None
            r = ns[0]
            for n in ns[1:]:
                if n == r or ctx.prove(mk_le(r, n)):
                    continue
                if ctx.prove(mk_le(n, r)):
                    r = n
                    continue
                r = ite(mk_le(r, n), r, n)
            return r
        if b.kind in ("le0", "lt0"):
            p = simplify(b.args[0], ctx)
            co = lin_coeff(p, t)
            if co is None or not co.is_const():
                return None
            rest = p - self.t * co
            if is_variant(rest, self.wm):
                return None
            k = co.const()
            if k <= 0:
                return None
            if not int_sorted(p):
                return None
            if b.kind == "le0":
                # k t + rest <= 0  <=>  t <= floor(-rest/k)
                if k == 1:
                    return -rest + 1
                if k.denominator == 1:
                    num = -rest + P(k)
                    q = simplify(num * (1 / k), ctx)
                    if _norm_int_(q) and ctx.prove(mk_le(ZERO, num)):
                        return q
                    if ctx.prove(mk_le(ZERO, num)):
                        return P(mk_atom("idiv", (num, P(k)), "I"))
            else:
                if k == 1:
                    return -rest
            return None
        if b.kind == "not" and b.args[0].kind == "eq0":
            p = b.args[0].args[0]
            co = lin_coeff(p, t)
            if co is None or not co.is_const():
                return None
            rest = p - self.t * co
            if is_variant(rest, self.wm):
                return None
            n = -rest * (1 / co.const())
            if _norm_int_(n) and ctx.prove(mk_le(ZERO, n)):
                return n
        return None

    # ------------------------------------------------------------ resolution
    def resolve(self):
        names = {c.name: c for c in self.comps}
        self.names = names
        for c in self.comps:
            if c.delta is not None:
                c.tmpl = c.v0 + c.delta * self.t
                c.how = "affine"
        for rnd in range(len(self.comps) + 2):
            progress = False
            R = Resolver(self)
            for c in self.comps:
                if c.resolved or c.nxt is None:
                    continue
                ok = self.res_scalar(c, R) if c.kind == "s" else self.res_bool(c, R) if c.kind == "b" else self.res_array(c, R)
                if ok:
                    progress = True
                    R = Resolver(self)
            if all(c.resolved for c in self.comps):
                return
            if not progress:
                break
        # contract-supplied invariants
        if not self.ex.dry:
            for inv in self.ex.invariants:
                if inv(self):
                    # something may have become resolvable
                    for rnd in range(len(self.comps) + 2):
                        R = Resolver(self)
                        pr = False
                        for c in self.comps:
                            if c.resolved or c.nxt is None:
                                continue
                            ok = self.res_scalar(c, R) if c.kind == "s" else self.res_bool(c, R) if c.kind == "b" else self.res_array(c, R)
                            if ok:
                                pr = True
                                R = Resolver(self)
                        if not pr:
                            break
                if all(c.resolved for c in self.comps):
                    return

    def pending(self, n):
        """value of this loop not known in closed form, or left over by a loop inside the body (it differs from iteration to iteration)"""
        if n in self.names:
            return not self.names[n].resolved
        return serial(n) >= self.wm and n in self.ex.opaque

    def unresolved_in(self, x):
        return {n for n in (comp_names_in(x) if isinstance(x, (Poly, B)) else value_names(x)) if self.pending(n)}

    def res_scalar(self, c, R):
        t, ta = self.t, self.t.as_atom()
        e = R.poly(c.nxt, self.tctx)
        me = app(c.name, (t,), c.sort)
        un = self.unresolved_in(e)
        tp = fresh("s")
        if not un:
            if ta not in e.fv and not is_variant(e, self.wm):
                pass
            prev = subst(e, {ta: t - 1})
            c.tmpl = ite(mk_le(t, ZERO), c.v0, prev)
            c.how = "last value"
            return True
        if un == {c.name}:
            d = e - me
            if not self.unresolved_in(d):
                d = simplify(d, self.tctx)
                c.tmpl = c.v0 + mk_msum([(tp, t)], subst(d, {ta: tp}))
                c.how = "sum"
                return True
            co = lin_coeff(e, me.as_atom())
            if co is not None and (e - me * co).is_zero() and not self.unresolved_in(co):
                c.tmpl = c.v0 * mk_prod(tp, t, subst(co, {ta: tp}))
                c.how = "product"
                return True
        return False

    def res_bool(self, c, R):
        e = R.bool(c.nxt, self.tctx)
        if self.unresolved_in(e):
            return False
        ta = self.t.as_atom()
        first = mk_le(self.t, ZERO)
        c.tmpl = mk_or(mk_and(first, c.v0), mk_and(mk_not(first), subst(e, {ta: self.t - 1})))
        c.how = "last value"
        return True

    def rectx(self, params, guard, ctx=None):
        fs = []
        for v, h in params:
            fs += [mk_le(ZERO, v), mk_lt(v, h)]
        return (ctx or self.tctx).assume(*fs).assume(guard)

    def res_array(self, c, R):
        t, ta = self.t, self.t.as_atom()
        X = c.nxt
        ups, b = chain(X)
        if not (isinstance(b, SymArr) and b.name == c.name and b.args == (t,)):
            nv = R.arr(X, self.tctx)
            if c.name not in arr_names(nv, set()) and not self.unresolved_arr(nv):
                def at(tt, nv=nv, c=c):
                    prev = map_arr(nv, XSubst({ta: tt - 1}))
                    d = self.st.ctx.assume(mk_le(ZERO, tt)).decide(mk_le(tt, ZERO))
                    if d is True:
                        return c.v0
                    if d is False:
                        return prev
                    return IteArr(mk_le(tt, ZERO), c.v0, prev)
                c.arr_at = at
                c.how = "replaced"
                return True
            return False
        if not ups:
            c.arr_at = lambda tt, c=c: c.v0
            c.how = "unchanged"
            return True
        ups = list(reversed(ups))       # oldest first
        lst = []
        for u in ups:
            uc = self.tctx
            ps = []
            for v, h in u.params:
                h2 = R.poly(h, uc)
                ps.append((v, h2))
                uc = uc.assume(mk_le(ZERO, v), mk_lt(v, h2))
            g = R.bool(u.guard, uc)
            uc = uc.assume(g)
            idx = R.poly(u.idx, uc)
            if any(x.kind == "ind" for mm in idx.t for x, _ in mm):
                idx = simplify(idx, uc)
            if self.unresolved_in(idx) or self.unresolved_in(g) or any(self.unresolved_in(h) for _, h in ps):
                return False
            if uc.inconsistent():
                continue
            lst.append((u, ps, g, idx, uc))
        c.updates = [(ps, g, idx) for u, ps, g, idx, uc in lst]
        if not lst:
            c.arr_at = lambda tt, c=c: c.v0
            c.how = "unchanged"
            return True
        if self.try_set(c, X, lst):
            return True
        if self.try_add(c, X, lst):
            return True
        return self.try_const(c, lst)

    def try_const(self, c, lst):
        """every write stores the same truth value: a cell has it if it had it or some iteration hits the cell"""
        ta = self.t.as_atom()
        vals = {u.val for u, *_ in lst}
        if len(vals) != 1 or not (vals <= {TRUE} or vals <= {FALSE}) or any(u.mode == "add" for u, *_ in lst):
            return False
        val, = vals

        def at(tt):
            a = c.v0
            for u, ps, g, idx, uc in lst:
                t2 = fresh("t")
                sub = {ta: t2}
                nps = [(t2, tt)]
                for pv, h in ps:
                    q = fresh("p")
                    h2 = subst(h, sub)
                    sub = dict(sub)
                    sub[pv.as_atom()] = q
                    nps.append((q, h2))
                a = UpdArr(a, nps, subst(g, sub), subst(idx, sub), val, "mark")
            return a
        c.arr_at = at
        c.how = "marks"
        return True

    def unresolved_arr(self, a):
        return {n for n in arr_names(a, set()) if self.pending(n)}

    def families(self, c, lst):
        """disjoint cell families of one iteration: [(params, guard, idx, ctx)] or None"""
        fams = []
        for u, ps, g, idx, uc in lst:
            placed = False
            for i, (fps, fg, fidx, fc) in enumerate(fams):
                # same cells?
                if not ps and not fps and (idx - fidx).is_zero():
                    fams[i] = (fps, mk_or(fg, g), fidx, self.rectx(fps, mk_or(fg, g)))
                    placed = True
                    break
                if len(ps) == len(fps):
                    ren = {a[0].as_atom(): b[0] for a, b in zip(ps, fps)}
                    if (subst(idx, ren) - fidx).is_zero() and all((subst(a[1], ren) - b[1]).is_zero() for a, b in zip(ps, fps)):
                        ng = mk_or(fg, subst(g, ren))
                        fams[i] = (fps, ng, fidx, self.rectx(fps, ng))
                        placed = True
                        break
                # disjoint?
                fr_ = [fresh("q") for _ in fps]
                sub = {v.as_atom(): f for (v, _), f in zip(fps, fr_)}
                c2 = uc.assume(*[x for (v, h), f in zip(fps, fr_) for x in (mk_le(ZERO, f), mk_lt(f, subst(h, sub)))])
                c2 = c2.assume(subst(fg, sub))
                if prove_ne(c2, subst(fidx, sub) - idx):
                    continue
                # subset of an existing family
                if fps:
                    sol = solve_index(fidx, tuple(fps), idx, uc)
                    if sol is not None:
                        sb = {v.as_atom(): q for (v, _), q in zip(fps, sol)}
                        ok = all(uc.prove(mk_le(ZERO, q)) and uc.prove(mk_lt(q, subst(h, sb))) for (v, h), q in zip(fps, sol)) \
                            and uc.prove(subst(fg, sb))
                        if ok:
                            placed = True
                            break
                # superset of an existing family
                if ps:
                    sol = solve_index(idx, tuple(ps), fidx, fc)
                    if sol is not None:
                        sb = {v.as_atom(): q for (v, _), q in zip(ps, sol)}
                        ok = all(fc.prove(mk_le(ZERO, q)) and fc.prove(mk_lt(q, subst(h, sb))) for (v, h), q in zip(ps, sol)) \
                            and fc.prove(subst(g, sb))
                        if ok:
                            fams[i] = (ps, g, idx, uc)
                            placed = True
                            break
                return None
            if not placed:
                fams.append((ps, g, idx, uc))
        return fams

    def no_hit(self, c, a, tt, ctx, strict=True):
        """no iteration before tt writes cell a"""
        if c.updates is None:
            return False
        ta = self.t.as_atom()
        t2 = fresh("u")
        for ps, g, idx in c.updates:
            sub = {ta: t2}
            cc = ctx.assume(mk_le(ZERO, t2), mk_lt(t2, tt))
            for v, h in ps:
                f = fresh("q")
                sub[v.as_atom()] = f
                cc = cc.assume(mk_le(ZERO, f), mk_lt(f, subst(h, sub)))
            cc = cc.assume(subst(g, sub))
            if not prove_ne(cc, subst(idx, sub) - a):
                return False
        return True

    def injective(self, fams):
        ta = self.t.as_atom()
        t2 = fresh("u")
        for ps, g, idx, uc in fams:
            for qs, h, jdx, vc in fams:
                # iteration t2 < t writes jdx, iteration t writes idx
                sub = {ta: t2}
                cc = uc.assume(mk_le(ZERO, t2), mk_lt(t2, self.t))
                for v, hi in qs:
                    f = fresh("q")
                    sub[v.as_atom()] = f
                    cc = cc.assume(mk_le(ZERO, f), mk_lt(f, subst(hi, sub)))
                cc = cc.assume(subst(h, sub))
                if not prove_ne(cc, subst(jdx, sub) - idx):
                    return False
        return True

    def try_set(self, c, X, lst):
        t, ta = self.t, self.t.as_atom()
        if any(u.mode == "mark" for u, *_ in lst):
            return False
        fams = self.families(c, lst)
        if fams is None:
            return False
        # an accumulated family may hit a cell more than once: as a family of writes its cells have to be distinct
        if any(u.mode == "add" and u.params for u, *_ in lst):
            for ps, g, idx, uc in fams:
                if ps and not distinct_cells(ps, g, idx, uc):
                    return False
        fixed = all(ta not in idx.fv and all(ta not in h.fv for _, h in ps) for ps, g, idx, uc in fams)
        R = Resolver(self)
        out = []
        # the same updates with the resolved cell indices
        _, X2 = chain(X)
        for u, ps, g, idx, uc in lst:
            X2 = UpdArr(X2, ps, g, idx, u.val, u.mode)
        for ps, g, idx, uc in fams:
            try:
                v = X2.read(idx, uc)
            except Unsupported:
                return False
            v = R.value(v, uc)
            if self.unresolved_in(v):
                return False
            out.append((ps, g, idx, v))
        if fixed:
            if not all(self.tctx.prove(g) or ta not in g.fv for ps, g, idx, v in out):
                return False
            fams = out

            def at(tt):
                a = c.v0
                x = XSubst({ta: tt - 1})
                d = self.st.ctx.decide(mk_lt(ZERO, tt))
                if d is False:
                    return a
                for ps, g, idx, v in fams:
                    a = UpdArr(a, ps, mk_and(g if ta not in g.fv else TRUE, TRUE if d else mk_lt(ZERO, tt)), idx, map_value(v, x))
                return a
            c.arr_at = at
            c.how = "overwritten every iteration"
            return True
        if not self.injective(fams):
            return False

        def at(tt, fams=out):
            a = c.v0
            for ps, g, idx, v in fams:
                t2 = fresh("t")
                sub = {ta: t2}
                nps = [(t2, tt)]
                for pv, h in ps:
                    q = fresh("p")
                    h2 = subst(h, sub)
                    sub = dict(sub)
                    sub[pv.as_atom()] = q
                    nps.append((q, h2))
                x = XSubst(sub)
                a = UpdArr(a, nps, subst(g, sub), subst(idx, sub), map_value(v, x))
            return a
        c.arr_at = at
        c.how = "disjoint writes"
        return True

    def deltas(self, c, X, lst):
        ups, _ = chain(X)
        ups = list(reversed(ups))
        R = Resolver(self)
        out = []
        for u, ps, g, idx, uc in lst:
            if not isinstance(u.val, Poly):
                return None
            if u.mode == "mark":
                return None
            if u.mode == "add":
                d = R.poly(u.val, uc)
            else:
                try:
                    prev = u.base.read(u.idx, uc)
                except Unsupported:
                    return None
                d = R.poly(u.val - prev, uc)
            out.append((ps, g, idx, simplify(d, uc)))
        return out

    def try_add(self, c, X, lst):
        t, ta = self.t, self.t.as_atom()
        ds = self.deltas(c, X, lst)
        if ds is None or any(self.unresolved_in(d) for _, _, _, d in ds):
            return False

        def at(tt, ds=ds):
            a = c.v0
            for ps, g, idx, d in ds:
                t2 = fresh("t")
                sub = {ta: t2}
                nps = [(t2, tt)]
                for pv, h in ps:
                    q = fresh("p")
                    h2 = subst(h, sub)
                    sub = dict(sub)
                    sub[pv.as_atom()] = q
                    nps.append((q, h2))
                a = UpdArr(a, *collapse_add(nps, subst(g, sub), subst(idx, sub), subst(d, sub)), "add")
            return a
        c.arr_at = at
        c.how = "accumulation"
        return True


def collapse_add(ps, g, idx, d):
    """parameters that do not select the cell are summed over"""
    ps = list(ps)
    while True:
        for k, (v, h) in enumerate(ps):
            va = v.as_atom()
            if va in idx.fv or any(va in h2.fv for w, h2 in ps):
                continue
            if va in g.fv:
                d, g = d * ind(g), TRUE
            d = mk_msum([(v, h)], d)
            ps.pop(k)
            break
        else:
            return ps, g, idx, d


def distinct_cells(ps, g, idx, ctx):
    """different parameter values select different cells"""
    qs = [fresh("q") for _ in ps]
    pre = {}
    for r, (v, h) in enumerate(ps):
        sub = dict(pre)
        for (w, _), q in list(zip(ps, qs))[r:]:
            sub[w.as_atom()] = q
        fs = [mk_lt(v, qs[r])]
        for (w, hw), q in list(zip(ps, qs))[r:]:
            fs += [mk_le(ZERO, q), mk_lt(q, subst(hw, sub))]
        c = ctx.assume(*fs).assume(subst(g, sub))
        if not prove_ne(c, subst(idx, sub) - idx):
            return False
    return True


# ---------------------------------------------------------------- rewriting opaque components by their closed forms
class Resolver:
    def __init__(self, loop):
        self.L = loop
        self.names = loop.names if hasattr(loop, "names") else {c.name: c for c in loop.comps}
        self.ta = loop.t.as_atom()
        self.memo = {}

    def poly(self, p, ctx):
        if self.ta not in p.fv:
            return p
        return self.rw(ctx).poly(p)

    def bool(self, b, ctx):
        if self.ta not in b.fv:
            return b
        return self.rw(ctx).bool(b)

    def rw(self, ctx):
        r = self.memo.get(ctx)
        if r is None:
            r = Rewriter(leaf=lambda a, rw: self.leaf(a, rw, ctx), bleaf=lambda b, rw: self.bleaf(b, rw, ctx),
                         touch=lambda x: self.ta in x.fv)
            self.memo[ctx] = r
        return r

    def bleaf(self, b, rw, ctx):
        if b.kind == "bapp":
            m = _CN.match(b.args[0])
            c = self.names.get(m.group(1)) if m else None
            if c is not None and c.kind == "b" and c.tmpl is not None:
                return subst(c.tmpl, {self.ta: rw.poly(b.args[1])})
        return None

    def leaf(self, a, rw, ctx):
        if a.kind == "msum":
            bs, body = open_msum(a)
            c = ctx
            nbs = []
            for v, h in bs:
                h2 = self.poly(h, c)
                nbs.append((v, h2))
                c = c.assume(mk_le(ZERO, v), mk_lt(v, h2))
            nb = self.poly(body, c)
            if nb is body and all(x[1] is y[1] for x, y in zip(bs, nbs)):
                return P(a)
            return mk_msum(nbs, nb)
        if a.kind != "app":
            return None
        m = _CN.match(a.args[0])
        c = self.names.get(m.group(1)) if m else None
        if c is None:
            return None
        args = [rw.poly(x) for x in a.args[1:]]
        suffix = m.group(2) or ""
        if c.kind == "s":
            if c.tmpl is not None:
                return subst(c.tmpl, {self.ta: args[0]})
            return None
        tt = args[0]
        if c.arr_at is not None:
            try:
                return self.walk(c.arr_at(tt).read(args[1], ctx), suffix, args[2:], ctx)
            except Unsupported:
                return P(mk_atom("app", (a.args[0],) + tuple(args), a.sort))
        if c.updates is not None and self.L.no_hit(c, args[1], tt, ctx):
            return self.walk(c.v0.read(args[1], ctx), suffix, args[2:], ctx)
        h = getattr(c, "cell", None)
        if h is not None:
            r = h(args[1], tt, ctx)
            if r is not None:
                return self.walk(r, suffix, args[2:], ctx)
        return P(mk_atom("app", (a.args[0],) + tuple(args), a.sort))

    def walk(self, v, suffix, args, ctx):
        if isinstance(v, VecVal):
            if suffix == ".len" and not args:
                return v.len
            return self.walk(v.arr.read(args[0], ctx), suffix, args[1:], ctx)
        if isinstance(v, StructVal):
            parts = suffix.split(".")
            return self.walk(v.f[parts[1]], "".join("." + x for x in parts[2:]), args, ctx)
        if isinstance(v, Poly):
            return v
        raise Unsupported("walk of %r" % (v,))

    def value(self, v, ctx):
        if isinstance(v, Poly):
            return self.poly(v, ctx)
        if isinstance(v, B):
            return self.bool(v, ctx)
        if isinstance(v, VecVal):
            return VecVal(self.poly(v.len, ctx), self.arr(v.arr, ctx), v.et)
        if isinstance(v, StructVal):
            return StructVal(v.cls, {k: self.value(x, ctx) for k, x in v.f.items()})
        if isinstance(v, (PtrVal, RevIt)):
            return type(v)(self.path(v.path, ctx), None if v.off is None else self.poly(v.off, ctx))
        if isinstance(v, SpanVal):
            return SpanVal(self.path(v.path, ctx), self.poly(v.off, ctx), self.poly(v.len, ctx))
        return v

    def path(self, path, ctx):
        if path is None:
            return None
        return (path[0], tuple((k, self.poly(s, ctx) if k == "i" else s) for k, s in path[1]))

    def arr(self, a, ctx):
        if isinstance(a, SymArr):
            m = _CN.match(a.name)
            c = self.names.get(m.group(1)) if m else None
            args = tuple(self.poly(x, ctx) for x in a.args)
            if c is not None and c.kind == "a":
                if c.arr_at is not None:
                    arr = c.arr_at(args[0])
                elif len(args) > 1 and c.updates is not None and self.L.no_hit(c, args[1], args[0], ctx):
                    arr = c.v0
                elif len(args) > 1 and getattr(c, "cell", None) is not None and c.cell(args[1], args[0], ctx) is not None:
                    v = c.cell(args[1], args[0], ctx)
                    return self.walk_arr(v, m.group(2) or "", args[2:], ctx)
                else:
                    return SymArr(a.name, args, a.et, a.prog)
                v = VecVal(ZERO, arr, c.et)
                return self.walk_arr(v, m.group(2) or "", args[1:], ctx)
            return SymArr(a.name, args, a.et, a.prog)
        if isinstance(a, ConstArr):
            return ConstArr(self.value(a.val, ctx))
        if isinstance(a, ListArr):
            return ListArr([self.value(x, ctx) for x in a.vals])
        if isinstance(a, ResizeArr):
            return ResizeArr(self.arr(a.base, ctx), self.poly(a.n, ctx), self.value(a.fill, ctx))
        if isinstance(a, IteArr):
            return IteArr(self.bool(a.c, ctx), self.arr(a.a, ctx.assume(a.c)), self.arr(a.b, ctx.assume(mk_not(a.c))))
        if isinstance(a, ShiftArr):
            return ShiftArr(self.arr(a.base, ctx), self.poly(a.off, ctx))
        if isinstance(a, UpdArr):
            c = ctx
            ps = []
            for v, h in a.params:
                h2 = self.poly(h, c)
                ps.append((v, h2))
                c = c.assume(mk_le(ZERO, v), mk_lt(v, h2))
            g = self.bool(a.guard, c)
            c = c.assume(g)
            return UpdArr(self.arr(a.base, ctx), ps, g, self.poly(a.idx, c), self.value(a.val, c), a.mode)
        if isinstance(a, LamArr):
            return a
        raise Unsupported("array rewrite")

    def walk_arr(self, v, suffix, args, ctx):
        while args or suffix:
            if isinstance(v, VecVal) and args:
                v = v.arr.read(args[0], ctx)
                args = args[1:]
            elif isinstance(v, StructVal):
                parts = suffix.split(".")
                v = v.f[parts[1]]
                suffix = "".join("." + x for x in parts[2:])
            else:
                raise Unsupported("walk_arr")
        return v.arr
