"""Symbolic execution of the extracted functions; generates proof obligations on the way."""
from .values import *
from . import cppast

TWO64 = P(2 ** 64)
TWO32 = P(2 ** 32)


BITREF = ("struct", "std::_Bit_reference")


class Obligation:
    def __init__(self, kind, what, where, ctx, goal):
        self.kind, self.what, self.where, self.ctx, self.goal = kind, what, where, ctx, goal
        self.status = None
        self.residual = None

    def __repr__(self):
        return "%s [%s] %s: %s" % (self.status, self.kind, self.where, self.what)


class State:
    __slots__ = ("mem", "ctx", "pc", "throws", "wlog")

    def __init__(self, mem, ctx, pc=(), throws=None, wlog=None):
        self.mem, self.ctx, self.pc = mem, ctx, tuple(pc)
        self.throws = throws if throws is not None else []
        self.wlog = wlog

    def copy(self):
        return State(dict(self.mem), self.ctx, self.pc, self.throws, self.wlog)

    def assume(self, b):
        self.ctx = self.ctx.assume(b)
        if b is not TRUE:
            self.pc = self.pc + (b,)


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn, self.this, self.parent = fn, this, parent
        self.vars = {}      # decl id -> ('root', Root) | ('path', path) | ('bind', path)

    def lookup(self, did):
        f = self
        while f is not None:
            r = f.vars.get(did)
            if r is not None:
                return r
            f = f.parent
        return None


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def loc_of(node, fallback=None):
    r = node.get("range", {}).get("begin", {})
    for d in (r, r.get("expansionLoc", {}), node.get("loc", {})):
        if "line" in d:
            return d["line"]
    return fallback


class Executor:
    def __init__(self, prog, axioms=None, contracts=None, invariants=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.invariants = invariants or []
        self.whole = []           # invariants on whole containers (invariants.WholeInv)
        self.whole_unfold = None
        self.obls = []            # all recorded obligations
        self.pending = []         # unresolved, waiting for enclosing loop
        self.dry = 0
        self.loc = 0
        self.opaque = set()
        self.after_loop = None
        self.readonly = set()             # copies standing for an lvalue chosen by an undecided condition          # called with the state after every outermost loop (a contract may generalise arrays there)
        self.loop_log = []
        self.loop_depth = 0
        self.call_stack = []
        self.fn_names = []
        self.functions_seen = set()
        self.assumptions = set()
        self.consts = set()

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, goal, what, st, node=None):
        if self.dry:
            return
        where = "%s" % (self.fn_names[-1] if self.fn_names else "?",)
        ob = Obligation(kind, what, where, st.ctx, goal)
        if st.ctx.prove(goal):
            ob.status = "discharged"
            self.obls.append(ob)
        elif self.loop_depth:
            self.pending.append(ob)
        else:
            ob.status = "discharged" if st.ctx.prove(goal, True) else "failed"
            self.obls.append(ob)

    def oblige_done(self, kind, what):
        """an obligation proved elsewhere (loop invariants)"""
        if not self.dry:
            ob = Obligation(kind, what, self.fn_names[-1] if self.fn_names else "?", None, TRUE)
            ob.status = "discharged"
            self.obls.append(ob)

    # ------------------------------------------------------------ memory
    def read_path(self, path, st, node=None):
        root, sels = path
        if root not in st.mem:
            raise Unsupported("dangling root %r" % root)
        v = st.mem[root]
        for k, s in sels:
            v = self.select(v, k, s, st)
        return v

    def select(self, v, k, s, st):
        if isinstance(v, Opaque):
            raise Unsupported(v.why)
        if k == "f":
            if not isinstance(v, StructVal) or s not in v.f:
                raise Unsupported("field %s of %r" % (s, type(v)))
            return v.f[s]
        if not isinstance(v, VecVal):
            raise Unsupported("index into %r" % (type(v),))
        if self.loc and v.et and v.et[0] in ("double", "real") and isinstance(v.arr, UpdArr):
            # only the set of written locations is wanted: any value will do for a floating-point cell
            return app("cell~%d" % next(FRESH), (), "R")
        return v.arr.read(s, st.ctx)

    def write_path(self, path, val, st):
        root, sels = path
        if root in self.readonly:
            raise Unsupported("assignment to an lvalue chosen by an undecided condition")
        if st.wlog is not None:
            st.wlog.append(path)
        st.mem[root] = self._upd(st.mem[root], sels, val, st) if sels else val

    def _upd(self, v, sels, val, st):
        if not sels:
            return val
        k, s = sels[0]
        if k == "f":
            if not isinstance(v, StructVal):
                raise Unsupported("field write into %r" % (v,))
            return v.with_(s, self._upd(v.f[s], sels[1:], val, st) if len(sels) > 1 else val)
        if not isinstance(v, VecVal):
            raise Unsupported("element write into %r" % (type(v),))
        nv = self._upd(v.arr.read(s, st.ctx), sels[1:], val, st) if len(sels) > 1 else val
        a = v.arr
        if isinstance(a, ListArr) and s.is_const() and 0 <= int(s.const()) < len(a.vals):
            l = list(a.vals)
            l[int(s.const())] = nv
            return VecVal(v.len, ListArr(l), v.et)
        while isinstance(a, UpdArr) and not a.params and a.guard is TRUE and a.mode == "set" and a.idx is s:
            a = a.base                      # the cell is overwritten
        return VecVal(v.len, UpdArr(a, (), TRUE, s, nv), v.et)

    def new_root(self, name, val, st, ty=None):
        r = Root(name, ty)
        st.mem[r] = val
        return r

    def idx_path(self, path, k, st, what, node=None, length=None):
        """path of element k with a bounds obligation"""
        if path is None:
            raise Unsupported("null pointer access")
        if length is None:
            v = self.read_path(path, st)
            if not isinstance(v, VecVal):
                raise Unsupported("index into %r" % (type(v),))
            length = v.len
        self.oblige("bounds", mk_and(mk_le(ZERO, k), mk_lt(k, length)),
                    "%s: 0 <= %s < %s" % (what, k, length), st, node)
        return (path[0], path[1] + (("i", k),))

    # ------------------------------------------------------------ functions
    def find_function(self, qual, nparams=None):
        l = self.prog.functions.get(qual)
        if not l:
            raise Unsupported("function %s not found in the sources" % qual)
        if nparams is not None:
            l = [f for f in l if len(self.params(f)) == nparams] or l
        # a template: the instantiation in use
        inst = [f for f in l if not f.get("_pattern")]
        return (inst or l)[0]

    def params(self, fn):
        return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    def call_def(self, fn, this, args, st, lam_frame=None):
        """args: list of ('val', Value) | ('path', path).  Returns merged return value (or None)."""
        if len(self.call_stack) > 24 or self.call_stack.count(fn.get("id")) > 0:
            raise Unsupported("recursive call of %s" % fn.get("_qual", fn.get("name")))
        self.call_stack.append(fn.get("id"))
        self.fn_names.append(fn.get("_qual", fn.get("name", "lambda")))
        self.functions_seen.add(fn.get("_qual", fn.get("name", "lambda")))
        try:
            fr = Frame(fn, this, lam_frame)
            ps = self.params(fn)
            if len(args) < len(ps):
                args = list(args)
                for p in ps[len(args):]:
                    init = [c for c in p.get("inner", []) if c.get("kind")]
                    if not init:
                        raise Unsupported("missing argument")
                    args.append(("val", self.eval(init[-1], st, fr)))
            for p, a in zip(ps, args):
                if is_ref(p["type"]) and a[0] == "path":
                    fr.vars[p["id"]] = ("path", a[1])
                else:
                    v = a[1] if a[0] == "val" else self.read_path(a[1], st)
                    v = self.convert(v, ntype(p["type"]), st)
                    fr.vars[p["id"]] = ("root", self.new_root(p.get("name", "arg"), v, st, ntype(p["type"])))
            if fn["kind"] == "CXXConstructorDecl":
                self.ctor_inits(fn, fr, st)
            outs = self.exec_stmt(fn["_body"], st, fr)
            rets = []
            for o in outs:
                if o.kind in ("ret", "next"):
                    rets.append(o)
                elif o.kind == "throw":
                    pass
                else:
                    raise Unsupported("control flow leaves function: " + o.kind)
            if not rets:
                # every path throws
                st.ctx = st.ctx.assume(FALSE)
                return Opaque("no return")
            return self.merge_outs(rets, st)
        finally:
            self.call_stack.pop()
            self.fn_names.pop()

    def merge_outs(self, outs, st):
        """merge several outcomes (all descending from st) into st; returns merged value"""
        base_pc = st.pc
        base_ctx = st.ctx
        if len(outs) == 1:
            o = outs[0]
            st.mem, st.ctx, st.pc = o.st.mem, o.st.ctx, o.st.pc
            return o.val
        acc = outs[-1]
        mem, val = dict(acc.st.mem), acc.val
        for o in reversed(outs[:-1]):
            c = mk_and(*o.st.pc[len(base_pc):])
            nm = {}
            for r in o.st.mem:
                if r in mem:
                    a, b = o.st.mem[r], mem[r]
                    nm[r] = a if a is b else ite_value(c, a, b)
                # roots that exist only on one side are dead afterwards, unless referenced by the value
                else:
                    nm[r] = o.st.mem[r]
            for r in mem:
                if r not in nm:
                    nm[r] = mem[r]
            mem = nm
            if val is not None or o.val is not None:
                val = ite_value(c, o.val, val) if (val is not None and o.val is not None) else Opaque("partial return")
        st.mem = mem
        # the disjunction of the branch conditions holds after the merge (other branches threw)
        disj = mk_or(*[mk_and(*o.st.pc[len(base_pc):]) for o in outs])
        st.ctx = base_ctx.assume(disj) if disj is not TRUE else base_ctx
        st.pc = base_pc + ((disj,) if disj is not TRUE else ())
        return val

    def ctor_inits(self, fn, fr, st):
        cls = fn["_qual"].rsplit("::", 1)[0]
        inits = {}
        delegating = None
        for c in fn.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer":
                if "anyInit" in c:
                    inits[c["anyInit"].get("name")] = c
                elif "delegatingInit" in c:
                    delegating = c
        if delegating is not None:
            v = self.eval(delegating["inner"][0], st, fr)
            self.write_path(fr.this, v, st)
            return
        for n, ty, dflt in self.prog.fields.get(cls, []):
            path = (fr.this[0], fr.this[1] + (("f", n),))
            node = None
            if n in inits:
                node = inits[n]["inner"][0]
            if node is not None and node.get("kind") != "CXXDefaultInitExpr":
                v = self.convert(self.eval(node, st, fr), ntype(ty), st)
                self.write_path(path, v, st)
            elif dflt:
                v = self.convert(self.eval(dflt[-1], st, fr), ntype(ty), st)
                self.write_path(path, v, st)

    def construct(self, cls, args, st, nodes_fn=None):
        """run the constructor of a repo class; returns the StructVal"""
        l = [f for f in self.prog.functions.get(cls + "::" + cls.split("::")[-1], []) if f["kind"] == "CXXConstructorDecl"
             and len(self.params(f)) >= len(args)]
        l = sorted(l, key=lambda f: len(self.params(f)))
        if nodes_fn is not None:
            l = [nodes_fn]
        init = StructVal(cls, {n: self.uninit(ntype(ty)) for n, ty, _ in self.prog.fields[cls]})
        root = self.new_root(cls, init, st, ("struct", cls))
        if not l:
            if args:
                raise Unsupported("no constructor of %s with %d arguments" % (cls, len(args)))
            for n, ty, dflt in self.prog.fields[cls]:
                if dflt:
                    self.write_path((root, (("f", n),)), self.eval(dflt[-1], st, Frame(None, (root, ()))), st)
            return self.read_path((root, ()), st)
        self.call_def(l[0], (root, ()), args, st)
        return self.read_path((root, ()), st)

    def uninit(self, t):
        if t[0] in ("double", "real", "int", "bool"):
            return make_sym(t, "uninit!%d" % next(FRESH), (), self.prog)
        return zero_of(t, self.prog)

    # ------------------------------------------------------------ conversions
    def convert(self, v, t, st):
        """implicit conversion to a declared type (spans from vectors etc. are handled by the caller)"""
        if isinstance(v, B) and t[0] in ("int", "double", "real"):
            return ind(v)
        if isinstance(v, Poly) and t[0] == "bool":
            return mk_not(mk_eq0(v))
        return v

    def cast_int(self, v, src, dst, st):
        """integral conversion"""
        if isinstance(v, B):
            v = ind(v)
        sbits, ssig = src[1], src[2]
        dbits, dsig = dst[1], dst[2]
        if not dsig and ssig:
            if st.ctx.prove(mk_le(ZERO, v)):
                return v
            mod = P(2 ** dbits)
            return ite(mk_le(ZERO, v), v, v + mod)
        if dbits < sbits or (dbits == sbits and dsig and not ssig):
            self.assumptions.add("sizes and indices fit in the machine int they are stored in")
            if dsig:
                # conversion is modulo 2^dbits: multiples (wrap-around terms of unsigned arithmetic) vanish
                md = 2 ** dbits
                if any(m and c.denominator == 1 and abs(c) >= md and int(c) % md == 0 and all(a.sort == "I" and e > 0 for a, e in m)
                       for m, c in v.t.items()):
                    out = {}
                    for m, c in v.t.items():
                        if c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m):
                            r = int(c) % md
                            if r >= md // 2:
                                r -= md
                            c = Fraction(r)
                            if m and abs(int(v.t[m])) < md // 2:
                                c = v.t[m]
                        if c:
                            out[m] = c
                    v = Poly(out)
        return v

    # ------------------------------------------------------------ expressions
    def lval(self, node, st, fr):
        """path of an lvalue expression"""
        k = node["kind"]
        inner = [c for c in node.get("inner", []) if c.get("kind")]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "CXXBindTemporaryExpr"):
            return self.lval(inner[0], st, fr)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr"):
            ck = node.get("castKind")
            if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay"):
                return self.lval(inner[0], st, fr)
            return self.materialize(node, st, fr)
        if k == "MaterializeTemporaryExpr":
            if ntype(node["type"]) == BITREF:
                return self.lval(inner[0], st, fr)
            return self.materialize(inner[0], st, fr)
        if k == "DeclRefExpr":
            rd = node["referencedDecl"]
            e = fr.lookup(rd["id"])
            if e is None:
                g = self.prog.globals.get(rd["id"])
                if g is not None:
                    return self.materialize_global(g, st, fr)
                if rd.get("kind") == "VarDecl" and rd["id"] in self.prog.decls:
                    return self.materialize_global(self.prog.decls[rd["id"]], st, fr)
                raise Unsupported("reference to %s" % rd.get("name"))
            if e[0] == "root":
                v = st.mem.get(e[1])
                return (e[1], ())
            return e[1]
        if k == "MemberExpr":
            base = inner[0]
            name = node.get("name")
            if node.get("isArrow"):
                bp = self.arrow_path(base, st, fr)
            else:
                bp = self.lval(base, st, fr)
            return (bp[0], bp[1] + (("f", name),))
        if k == "CXXThisExpr":
            return fr.this
        if k == "ArraySubscriptExpr":
            b = self.eval(inner[0], st, fr)
            i = self.eval(inner[1], st, fr)
            if isinstance(i, PtrVal):
                b, i = i, b
            return self.ptr_elem(b, i, st, node)
        if k == "UnaryOperator" and node.get("opcode") == "*":
            b = self.eval(inner[0], st, fr)
            if isinstance(b, RevIt):
                return self.ptr_elem(PtrVal(b.path, b.off), P(-1), st, node)
            return self.ptr_elem(b, ZERO, st, node)
        if k == "UnaryOperator" and node.get("opcode") in ("++", "--") and not node.get("isPostfix"):
            self.eval(node, st, fr)
            return self.lval(inner[0], st, fr)
        if k in ("BinaryOperator", "CompoundAssignOperator") and node.get("opcode", "").endswith("="):
            self.eval(node, st, fr)
            return self.lval(inner[0], st, fr)
        if k == "BinaryOperator" and node.get("opcode") == ",":
            self.eval(inner[0], st, fr)
            return self.lval(inner[1], st, fr)
        if k == "ConditionalOperator":
            c = self.as_bool(self.eval(inner[0], st, fr))
            d = st.ctx.decide(c)
            if d is not None:
                return self.lval(inner[1] if d else inner[2], st, fr)
            p = self.materialize(node, st, fr)
            if node.get("valueCategory") == "lvalue":
                self.readonly.add(p[0])
            return p
        if k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"):
            r = self.call_expr(node, st, fr, want="lval")
            if isinstance(r, LV):
                return r.path
            return (self.new_root("tmp", r, st), ())
        return self.materialize(node, st, fr)

    def materialize(self, node, st, fr):
        v = self.eval(node, st, fr)
        return (self.new_root("tmp", v, st), ())

    def materialize_global(self, g, st, fr):
        key = ("global", g["id"])
        cache = getattr(self, "_globals", None)
        if cache is None:
            cache = self._globals = {}
        if key not in cache or cache[key] not in st.mem:
            init = [c for c in g.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
            q = g["type"].get("qualType", "")
            if not init or not (q.startswith("const ") or g.get("constexpr")):
                raise Unsupported("non-constant global %s" % g.get("name"))
            v = self.convert(self.eval(init[-1], st, Frame(None)), ntype(g["type"]), st)
            r = Root(g.get("name", "global"))
            cache[key] = r
            st.mem[r] = v
        return (cache[key], ())

    def arrow_path(self, base, st, fr):
        n = base
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            n = [c for c in n["inner"] if c.get("kind")][0]
        if n["kind"] == "CXXThisExpr":
            if fr.this is None:
                f = fr
                while f is not None and f.this is None:
                    f = f.parent
                if f is None:
                    raise Unsupported("this outside a method")
                return f.this
            return fr.this
        v = self.eval(base, st, fr)
        if isinstance(v, PtrVal):
            if v.path is not None and v.off is None:
                return v.path
            return self.ptr_elem(v, ZERO, st, base)
        if isinstance(v, LV):
            return v.path
        raise Unsupported("-> on %r" % (type(v),))

    def ptr_elem(self, b, i, st, node):
        if isinstance(b, PtrVal):
            if b.path is None:
                raise Unsupported("null pointer dereference")
            if b.off is None:
                if i.is_zero():
                    return b.path
                raise Unsupported("pointer arithmetic on an object pointer")
            return self.idx_path(b.path, b.off + i, st, "pointer access", node)
        if isinstance(b, VecVal):
            return (self.new_root("tmp", b, st), (("i", i),))
        raise Unsupported("dereference of %r" % (type(b),))

    def as_bool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            return mk_not(mk_eq0(v))
        raise Unsupported("condition %r" % (v,))

    def num(self, v):
        if isinstance(v, B):
            return ind(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opaque):
            raise Unsupported(v.why)
        raise Unsupported("number expected, got %r" % (type(v),))

    def eval(self, node, st, fr):
        k = node["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind " + k)
        r = m(node, st, fr)
        if isinstance(r, LV):
            return self.read_path(r.path, st)
        return r

    def inner(self, node):
        return [c for c in node.get("inner", []) if c.get("kind")]

    def e_ParenExpr(self, n, st, fr):
        return self.eval(self.inner(n)[0], st, fr)

    e_ExprWithCleanups = e_ConstantExpr = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_CXXDefaultArgExpr(self, n, st, fr):
        i = self.inner(n)
        if not i:
            raise Unsupported("default argument")
        return self.eval(i[0], st, fr)

    def e_CXXDefaultInitExpr(self, n, st, fr):
        i = self.inner(n)
        if not i:
            raise Unsupported("default initialiser")
        return self.eval(i[0], st, fr)

    def e_IntegerLiteral(self, n, st, fr):
        self.consts.add(Fraction(int(n["value"])))
        return P(int(n["value"]))

    def e_CharacterLiteral(self, n, st, fr):
        return P(int(n["value"]))

    def e_FloatingLiteral(self, n, st, fr):
        f = Fraction(repr(float(n["value"])))
        self.consts.add(f)
        return P(f)

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return mk_bool(n["value"] in (True, "true"))

    def e_StringLiteral(self, n, st, fr):
        return StrVal(n.get("value", ""))

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return PtrVal(None, ZERO)

    def e_CXXThisExpr(self, n, st, fr):
        return PtrVal(fr.this, None)

    def e_DeclRefExpr(self, n, st, fr):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return StrVal(rd["name"])
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return FnRef(rd)
        e = fr.lookup(rd["id"])
        if e is None and rd["kind"] == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        if e is None and rd["id"] not in self.prog.globals and rd["id"] not in self.prog.decls:
            # constants of the standard library
            if rd.get("name") in ("pi_v", "pi"):
                return app("pi", (), "R")
            raise Unsupported("reference to %s" % rd.get("name"))
        return self.read_path(self.lval(n, st, fr), st)

    def e_MemberExpr(self, n, st, fr):
        rid = n.get("referencedMemberDecl")
        g = self.prog.globals.get(rid)
        if g is not None:
            return self.read_path(self.materialize_global(g, st, fr), st)
        return self.read_path(self.lval(n, st, fr), st)

    def e_ArraySubscriptExpr(self, n, st, fr):
        return self.read_path(self.lval(n, st, fr), st)

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get("castKind")
        sub = self.inner(n)[0]
        t = ntype(n["type"])
        if ck == "LValueToRValue":
            v = self.eval(sub, st, fr)
            if t[0] == "ptr" and isinstance(v, VecVal):       # a row of a table of pointers
                return PtrVal(self.lval(sub, st, fr), ZERO)
            return v
        if ck in ("NoOp", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "Dynamic"):
            v = self.eval(sub, st, fr)
            return v
        if ck == "ArrayToPointerDecay":
            if sub["kind"] == "StringLiteral":
                return self.eval(sub, st, fr)
            return PtrVal(self.lval(sub, st, fr), ZERO)
        v = self.eval(sub, st, fr)
        if ck == "IntegralCast":
            if isinstance(v, StrVal):
                return v
            s = ntype(sub["type"])
            if s[0] == "bool":
                return ind(v) if isinstance(v, B) else v
            if s[0] != "int" or t[0] != "int":
                if t[0] == "int" and isinstance(v, Poly):
                    return v
                raise Unsupported("integral cast %r -> %r" % (s, t))
            return self.cast_int(self.num(v), s, t, st)
        if ck == "IntegralToFloating":
            return self.num(v)
        if ck == "FloatingCast":
            if t[0] == "double":
                return v
            raise Unsupported("narrowing floating cast")
        if ck == "FloatingToIntegral":
            return self.trunc(self.num(v), st)
        if ck == "IntegralToBoolean":
            return self.as_bool(v)
        if ck == "FloatingToBoolean":
            return self.as_bool(v)
        if ck == "NullToPointer":
            return PtrVal(None, ZERO)
        if ck == "PointerToBoolean":
            if isinstance(v, PtrVal):
                return mk_bool(v.path is not None)
        if ck == "ToVoid":
            return None
        raise Unsupported("cast kind %s" % ck)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def trunc(self, v, st):
        self.assumptions.add("double-to-int conversions stay in the range of int")
        return simp_trunc(v, st.ctx)

    def e_InitListExpr(self, n, st, fr):
        t = ntype(n["type"])
        vals = self.inner(n)
        if n.get("array_filler"):
            vals = [c for c in n.get("array_filler") if c.get("kind") != "ImplicitValueInitExpr"]
        if t[0] in ("vec", "arr"):
            if t[0] == "arr" and len(vals) == 1 and vals[0]["kind"] == "InitListExpr" and ntype(vals[0]["type"])[0] == "arr":
                return self.eval(vals[0], st, fr)
            vs = [self.convert(self.eval(x, st, fr), t[1], st) for x in vals]
            if t[0] == "arr":
                while len(vs) < t[2]:
                    vs.append(zero_of(t[1], self.prog))
            return VecVal(P(len(vs)), ListArr(vs) if vs else ConstArr(zero_of(t[1], self.prog)), t[1])
        if t[0] == "tuple":
            return StructVal("tuple", {str(i): self.eval(x, st, fr) for i, x in enumerate(vals)})
        if t[0] in ("double", "int", "bool", "real"):
            return self.eval(vals[0], st, fr) if vals else zero_of(t, self.prog)
        if t[0] == "struct" and t[1] in self.prog.fields:
            fl = self.prog.fields[t[1]]
            f = {}
            for i, (nm, ty, d) in enumerate(fl):
                f[nm] = self.eval(vals[i], st, fr) if i < len(vals) else zero_of(ntype(ty), self.prog)
            return StructVal(t[1], f)
        if len(vals) == 1:
            return self.eval(vals[0], st, fr)
        raise Unsupported("initialiser list of %r" % (t,))

    def e_CXXStdInitializerListExpr(self, n, st, fr):
        return self.eval(self.inner(n)[0], st, fr)

    def e_ImplicitValueInitExpr(self, n, st, fr):
        return zero_of(ntype(n["type"]), self.prog)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThrowExpr(self, n, st, fr):
        st.throws.append((st.pc, st.ctx, "throw in " + (self.fn_names[-1] if self.fn_names else "?")))
        st.assume(FALSE)
        return Opaque("throw")

    def e_LambdaExpr(self, n, st, fr):
        rec = [c for c in n["inner"] if c.get("kind") == "CXXRecordDecl"][0]
        call = [c for c in rec.get("inner", []) if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not call:
            for c in rec.get("inner", []):
                if c.get("kind") == "FunctionTemplateDecl":
                    for d in c.get("inner", []):
                        if d.get("kind") == "CXXMethodDecl" and any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])) \
                                and d.get("name") == "operator()":
                            call.append(d)
        if not call:
            raise Unsupported("lambda without call operator")
        fn = dict(call[-1])
        body = [c for c in n["inner"] if c.get("kind") == "CompoundStmt"]
        fn["_body"] = body[-1] if body else [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"][0]
        fn["_qual"] = (self.fn_names[-1] if self.fn_names else "") + "::lambda"
        # snapshot of by-value captures is not distinguished from by-reference: captured locals must not be
        # modified between creation and call; checked by comparing at call time
        snap = {}
        f = fr
        return LambdaVal(fn, fr, fr.this)

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = self.inner(n)
        cv = self.as_bool(self.eval(c, st, fr))
        d = st.ctx.decide(cv)
        if d is True:
            return self.eval(a, st, fr)
        if d is False:
            return self.eval(b, st, fr)
        return self.branch_expr(cv, lambda s: self.eval(a, s, fr), lambda s: self.eval(b, s, fr), st)

    def branch_expr(self, cv, fa, fb, st):
        s1, s2 = st.copy(), st.copy()
        s1.assume(cv)
        s2.assume(mk_not(cv))
        v1 = fa(s1)
        v2 = fb(s2)
        outs = []
        if not (FALSE in s1.ctx.fset):
            outs.append(Outcome("next", s1, v1))
        if not (FALSE in s2.ctx.fset):
            outs.append(Outcome("next", s2, v2))
        if not outs:
            st.assume(FALSE)
            return v1
        return self.merge_outs(outs, st)

    def e_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        sub = self.inner(n)[0]
        if op in ("++", "--"):
            path = self.lval(sub, st, fr)
            v = self.read_path(path, st)
            if isinstance(v, PtrVal):
                nv = PtrVal(v.path, v.off + (1 if op == "++" else -1))
            elif isinstance(v, RevIt):
                nv = RevIt(v.path, v.off + (-1 if op == "++" else 1))
            else:
                nv = self.num(v) + (1 if op == "++" else -1)
            self.write_path(path, nv, st)
            return v if n.get("isPostfix") else nv
        if op == "&":
            p = self.lval(sub, st, fr)
            if p[1] and p[1][-1][0] == "i":
                return PtrVal((p[0], p[1][:-1]), p[1][-1][1])
            return PtrVal(p, None)
        if op == "*":
            return self.read_path(self.lval(n, st, fr), st)
        v = self.eval(sub, st, fr)
        if op == "-":
            return self.int_result(-self.num(v), n, st)
        if op == "+":
            return v
        if op == "!":
            return mk_not(self.as_bool(v))
        raise Unsupported("unary " + op)

    def int_result(self, v, n, st):
        t = ntype(n["type"])
        if t[0] == "int" and not t[2]:
            if not st.ctx.prove(mk_le(ZERO, v)):
                return ite(mk_le(ZERO, v), v, v + P(2 ** t[1]))
        return v

    def arith(self, op, a, b, n, st, t=None):
        t = t or ntype(n["type"])
        if isinstance(a, (PtrVal, RevIt)) or isinstance(b, (PtrVal, RevIt)):
            return self.ptr_arith(op, a, b, st)
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            r = a - b
            if t[0] == "int" and not t[2] and not st.ctx.prove(mk_le(ZERO, r)):
                return ite(mk_le(ZERO, r), r, r + P(2 ** t[1]))
            return r
        if op == "*":
            return a * b
        if op == "/":
            if t[0] == "int":
                self.oblige("division", mk_not(mk_eq0(b)), "integer divisor %s != 0" % b, st, n)
                return self.int_div(a, b, st)
            if not b.is_const() or b.const() == 0:
                self.note_div(b, st)
            return a * inv(b)
        if op == "%":
            self.oblige("division", mk_not(mk_eq0(b)), "integer divisor %s != 0" % b, st, n)
            q = self.int_div(a, b, st)
            return a - q * b
        if op == "<<" and b.is_const():
            return a * P(2 ** int(b.const()))
        if op == ">>" and b.is_const() and st.ctx.prove(mk_le(ZERO, a)):
            return self.int_div(a, P(2 ** int(b.const())), st)
        if op == "&" and b.is_const():
            return app("land", (a, b), "I")
        if op == "&" and a.is_const():
            return app("land", (b, a), "I")
        raise Unsupported("operator " + op)

    def note_div(self, b, st):
        self.assumptions.add("floating-point divisors are nonzero where the quotient is used")

    def int_div(self, a, b, st):
        if b.is_const() and b.const() == 1:
            return a
        if a.is_const() and b.is_const() and b.const() != 0:
            import math
            return P(Fraction(math.trunc(a.const() / b.const())))
        if b.is_const() and always_divisible(a, b.const()):
            return a * P(1 / b.const())
        s = b.single()
        if s is not None and st.ctx.prove(mk_lt(ZERO, b)):
            q, r = split_by(a, s[0], s[1])
            # a = q*b + r ; if 0<=r<b and a>=0 the quotient is q
            if st.ctx.prove(mk_le(ZERO, r)) and st.ctx.prove(mk_lt(r, b)) and st.ctx.prove(mk_le(ZERO, q)):
                return q
        return P(mk_atom("idiv", (a, b), "I"))

    def ptr_arith(self, op, a, b, st):
        if isinstance(a, PtrVal) and isinstance(b, Poly):
            if a.off is None:
                raise Unsupported("arithmetic on object pointer")
            return PtrVal(a.path, a.off + b if op == "+" else a.off - b)
        if isinstance(b, PtrVal) and isinstance(a, Poly) and op == "+":
            return PtrVal(b.path, b.off + a)
        if isinstance(a, PtrVal) and isinstance(b, PtrVal) and op == "-" and same_path(a.path, b.path):
            return a.off - b.off
        if isinstance(a, RevIt) and isinstance(b, Poly):
            return RevIt(a.path, a.off - b if op == "+" else a.off + b)
        raise Unsupported("pointer arithmetic")

    def compare(self, op, a, b, st):
        if isinstance(a, StrVal) and isinstance(b, StrVal) and op in ("==", "!="):
            return mk_bool((a.s == b.s) == (op == "=="))
        if isinstance(a, (PtrVal, RevIt)) and isinstance(b, type(a)):
            if a.path is None or b.path is None:
                r = mk_bool(a.path is None and b.path is None)
                if op == "==":
                    return r
                if op == "!=":
                    return mk_not(r)
            if not same_path(a.path, b.path):
                raise Unsupported("comparison of unrelated pointers")
            if a.off is None:
                raise Unsupported("comparison of object pointers")
            x, y = (a.off, b.off) if isinstance(a, PtrVal) else (b.off, a.off)
            return self.compare(op, x, y, st)
        if isinstance(a, B) and isinstance(b, B) and op in ("==", "!="):
            r = mk_biff(a, b)
            return r if op == "==" else mk_not(r)
        a, b = self.num(a), self.num(b)
        return {"<": mk_lt, "<=": mk_le, ">": lambda x, y: mk_lt(y, x), ">=": lambda x, y: mk_le(y, x),
                "==": mk_eq, "!=": lambda x, y: mk_not(mk_eq(x, y))}[op](a, b)

    def e_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        a, b = self.inner(n)
        if op == "=":
            v = self.eval(b, st, fr)
            path = self.lval(a, st, fr)
            self.write_path(path, self.convert(v, ntype(a["type"]), st), st)
            return v
        if op in ("&&", "||"):
            x = self.as_bool(self.eval(a, st, fr))
            if op == "&&":
                if x is FALSE:
                    return FALSE
                s2 = st.copy()
                s2.assume(x)
                y = self.as_bool(self.eval(b, s2, fr))
                self.absorb(st, s2, x)
                return mk_and(x, y)
            if x is TRUE:
                return TRUE
            s2 = st.copy()
            s2.assume(mk_not(x))
            y = self.as_bool(self.eval(b, s2, fr))
            self.absorb(st, s2, mk_not(x))
            return mk_or(x, y)
        if op == ",":
            self.eval(a, st, fr)
            return self.eval(b, st, fr)
        x = self.eval(a, st, fr)
        y = self.eval(b, st, fr)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, x, y, st)
        if op in ("&", "|", "^") and isinstance(x, B) and isinstance(y, B):
            return mk_and(x, y) if op == "&" else mk_or(x, y) if op == "|" else mk_not(mk_biff(x, y))
        return self.arith(op, x, y, n, st)

    def absorb(self, st, s2, c):
        """memory effects of a conditionally evaluated right operand"""
        for r, v in s2.mem.items():
            if r in st.mem and st.mem[r] is not v:
                st.mem[r] = ite_value(c, v, st.mem[r])
            elif r not in st.mem:
                st.mem[r] = v

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        a, b = self.inner(n)
        y = self.eval(b, st, fr)
        path = self.lval(a, st, fr)
        x = self.read_path(path, st)
        ct = n.get("computeResultType") or n["type"]
        t = ntype(ct)
        lt = ntype(a["type"])
        if isinstance(x, Poly) and lt[0] == "int" and t[0] == "int" and not t[2] and lt[2]:
            # signed op= unsigned: arithmetic wraps and is converted back; modulo 2^n this is signed arithmetic
            r = self.arith(op, x, y, n, st, lt) if op in "+-*" else self.arith(op, x, y, n, st, t)
        else:
            r = self.arith(op, x, y, n, st, t)
        if lt[0] == "int" and t[0] in ("double", "real"):
            r = self.trunc(r, st)
        self.write_path(path, r, st)
        return r

    def e_CXXNewExpr(self, n, st, fr):
        raise Unsupported("new")

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        raise Unsupported("sizeof")

    # ---- construction
    def e_CXXConstructExpr(self, n, st, fr):
        t = ntype(n["type"])
        args = self.inner(n)
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        k = t[0]
        if len(args) == 1 and (n.get("elidable") or ntype(args[0]["type"]) == t) and \
                not (k == "vec" and ntype(args[0]["type"])[0] == "int"):
            return self.eval(args[0], st, fr)
        if k in ("vec", "arr"):
            return self.construct_vec(t, args, st, fr)
        if k == "span":
            return self.construct_span(args, st, fr)
        if k == "tuple":
            vs = [self.eval(a, st, fr) for a in args]
            if len(vs) == 1 and isinstance(vs[0], StructVal):
                return vs[0]
            if not vs:
                return zero_of(t, self.prog)
            if len(vs) == len(t[1]):
                return StructVal("tuple", {str(i): self.convert(v, t[1][i], st) for i, v in enumerate(vs)})
            raise Unsupported("tuple construction")
        if k == "ptr":
            vs = [self.eval(a, st, fr) for a in args]
            return vs[0] if vs else PtrVal(None, ZERO)
        if k == "struct" and t[1] in self.prog.fields:
            cv = n.get("ctorType")
            vs = [self.arg(a, st, fr) for a in args]
            if len(vs) == 1 and vs[0][0] == "val" and isinstance(vs[0][1], StructVal) and vs[0][1].cls == t[1]:
                return vs[0][1]
            c = self.contracts.get("ctor:" + t[1])
            if c is not None:
                return c(self, st, [v[1] if v[0] == "val" else self.read_path(v[1], st) for v in vs])
            return self.construct(t[1], vs, st)
        if k == "other" and ("ctor:" + str(t[1])) in self.contracts:
            return self.contracts["ctor:" + str(t[1])](self, st, [self.eval(a, st, fr) for a in args])
        if k == "uptr":
            vs = [self.eval(a, st, fr) for a in args]
            return vs[0] if vs else Opaque("null unique_ptr")
        if k in ("struct", "other") and any(x in str(t[1]) for x in ("basic_string", "std::string", "invalid_argument",
                                                                     "runtime_error", "out_of_range", "logic_error",
                                                                     "domain_error", "exception", "length_error")):
            if len(args) == 1 and "string" in str(t[1]):
                v = self.eval(args[0], st, fr)
                if isinstance(v, StrVal):
                    return v
            return StrVal("string")
        if k in ("struct", "other") and "ifstream" in str(t[1]):
            return StrVal("stream")
        if len(args) == 1 and k == "other":
            v = self.eval(args[0], st, fr)
            if isinstance(v, (PtrVal, RevIt, LambdaVal, SpanVal)):
                return v
        if k == "struct" and not args and "lambda" in t[1]:
            return Opaque("lambda type")
        if k == "struct" and len(args) == 1:
            v = self.eval(args[0], st, fr)
            if isinstance(v, LambdaVal):
                return v
        raise Unsupported("construction of %r" % (t,))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_vec(self, t, args, st, fr):
        et = t[1]
        if not args:
            return zero_of(t, self.prog)
        a0 = args[0]
        t0 = ntype(a0["type"])
        if len(args) == 1 and a0["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
            v = self.eval(a0, st, fr)
            if not isinstance(v, VecVal):
                raise Unsupported("initialiser list of a vector")
            if v.len.is_zero():
                return zero_of(t, self.prog)
            return VecVal(v.len, v.arr, et)
        v0 = self.eval(a0, st, fr)
        if isinstance(v0, VecVal):
            return v0
        if isinstance(v0, PtrVal) and len(args) >= 2:
            v1 = self.eval(args[1], st, fr)
            if isinstance(v1, PtrVal) and same_path(v0.path, v1.path):
                src = self.read_path(v0.path, st)
                n = v1.off - v0.off
                self.range_ob(src, v0.off, n, "range constructor", st, a0)
                return VecVal(n, ShiftArr(src.arr, v0.off), et)
            raise Unsupported("vector range constructor")
        if isinstance(v0, SpanVal):
            raise Unsupported("vector from span")
        n = self.num(v0)
        fill = self.convert(self.eval(args[1], st, fr), et, st) if len(args) >= 2 else zero_of(et, self.prog)
        self.oblige("size", mk_le(ZERO, n), "vector size %s >= 0" % n, st, a0)
        return VecVal(n, ConstArr(fill), et)

    def construct_span(self, args, st, fr):
        if not args:
            return SpanVal(None, ZERO, ZERO)
        if len(args) == 1:
            return self.to_span(args[0], st, fr)
        v0 = self.eval(args[0], st, fr)
        v1 = self.eval(args[1], st, fr)
        if isinstance(v0, PtrVal):
            n = v1 if isinstance(v1, Poly) else v1.off - v0.off
            return SpanVal(v0.path, v0.off, n)
        raise Unsupported("span construction")

    def to_span(self, node, st, fr):
        t = ntype(node["type"])
        n = node
        while n["kind"] in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
                            "CXXFunctionalCastExpr", "ParenExpr", "CXXBindTemporaryExpr") and \
                ntype(n["type"])[0] == "span" and self.inner(n):
            n = [c for c in self.inner(n) if c["kind"] != "CXXDefaultArgExpr"][0]
        t = ntype(n["type"])
        if t[0] == "span":
            v = self.eval(n, st, fr)
            return v
        path = self.lval(n, st, fr)
        v = self.read_path(path, st)
        if isinstance(v, SpanVal):
            return v
        if isinstance(v, VecVal):
            return SpanVal(path, ZERO, v.len)
        raise Unsupported("span from %r" % (type(v),))

    def range_ob(self, src, off, n, what, st, node):
        self.oblige("bounds", mk_or(mk_le(n, ZERO), mk_and(mk_le(ZERO, off), mk_le(off + n, src.len))),
                    "%s: [%s, +%s) within length %s" % (what, off, n, src.len), st, node)

    # ---- calls
    def arg(self, node, st, fr):
        """argument passing: an lvalue stays a path"""
        if node.get("valueCategory") == "lvalue":
            n = node
            return ("path", self.lval(n, st, fr))
        if node["kind"] == "MaterializeTemporaryExpr" or node.get("valueCategory") == "xvalue":
            return ("path", self.lval(node, st, fr))
        if ntype(node["type"])[0] == "span":
            return ("val", self.to_span(node, st, fr))
        return ("val", self.eval(node, st, fr))

    def e_CallExpr(self, n, st, fr):
        return self.call_expr(n, st, fr)

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def callee_decl(self, n):
        c = self.inner(n)[0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = self.inner(c)[0]
        return c

    def call_expr(self, n, st, fr, want="val"):
        from . import stdmodel
        c = self.callee_decl(n)
        kids = self.inner(n)
        args = kids[1:]
        if n["kind"] == "CXXMemberCallExpr" and c["kind"] == "MemberExpr":
            return self.method_call(n, c, args, st, fr)
        if n["kind"] == "CXXOperatorCallExpr":
            return stdmodel.operator_call(self, n, c, args, st, fr, want)
        if c["kind"] == "DeclRefExpr":
            rd = c["referencedDecl"]
            fn = self.prog.definition(rd["id"])
            if fn is not None:
                return self.repo_call(fn, None, args, st, fr)
            return stdmodel.free_call(self, n, rd, args, st, fr, want)
        if c["kind"] == "LambdaExpr":
            lam = self.eval(c, st, fr)
            return self.call_def(lam.node, lam.this, [self.arg(a, st, fr) for a in args], st, lam.frame)
        raise Unsupported("call through %s" % c["kind"])

    def repo_call(self, fn, this, args, st, fr):
        q = fn["_qual"]
        av = [self.arg(a, st, fr) for a in args]
        con = self.contracts.get(q)
        if con is not None:
            return con(self, st, this, av)
        return self.call_def(fn, this, av, st)

    def method_call(self, n, c, args, st, fr):
        from . import stdmodel
        rid = c.get("referencedMemberDecl")
        fn = self.prog.definition(rid)
        base = self.inner(c)[0]
        bt = ntype(base["type"])
        if fn is not None or (bt[0] == "struct" and bt[1] in self.prog.fields) or \
                (bt[0] == "ptr" and bt[1][0] == "struct" and bt[1][1] in self.prog.fields):
            this = self.arrow_path(base, st, fr) if c.get("isArrow") else self.lval(base, st, fr)
            cls = bt[1] if bt[0] == "struct" else bt[1][1]
            if fn is None:
                con = self.contracts.get("%s::%s" % (cls, c.get("name")))
                if con is not None:
                    return con(self, st, this, [self.arg(a, st, fr) for a in args if a["kind"] != "CXXDefaultArgExpr"])
                raise Unsupported("method %s::%s has no body here" % (cls, c.get("name")))
            return self.repo_call(fn, this, args, st, fr)
        cls = bt[1][1] if bt[0] == "ptr" and bt[1][0] == "struct" else bt[1] if bt[0] == "struct" else None
        con = self.contracts.get("%s::%s" % (cls, c.get("name"))) if cls else None
        if con is not None:
            this = self.arrow_path(base, st, fr) if c.get("isArrow") else self.lval(base, st, fr)
            return con(self, st, this, [self.arg(a, st, fr) for a in args if a["kind"] != "CXXDefaultArgExpr"])
        if bt[0] == "other":
            con = self.contracts.get("%s::%s" % (bt[1], c.get("name")))
            if con is not None:
                return con(self, st, self.lval(base, st, fr), [self.arg(a, st, fr) for a in args])
        return stdmodel.std_method(self, n, c, base, args, st, fr)

    # ------------------------------------------------------------ statements
    def exec_stmt(self, n, st, fr):
        """list of outcomes; `st` may be mutated"""
        k = n.get("kind")
        if k is None:
            return [Outcome("next", st)]
        m = getattr(self, "s_" + k, None)
        try:
            if m is not None:
                return m(n, st, fr)
            self.eval(n, st, fr)            # expression statement
        except Unsupported:
            if FALSE in st.ctx.fset:        # unreachable from here on: a call never returned
                return []
            raise
        if FALSE in st.ctx.fset:
            return []
        return [Outcome("next", st)]

    def s_NullStmt(self, n, st, fr):
        return [Outcome("next", st)]

    def s_CompoundStmt(self, n, st, fr):
        outs = [Outcome("next", st)]
        for c in n.get("inner", []):
            if not c.get("kind"):
                continue
            new = []
            nexts = [o for o in outs if o.kind == "next"]
            new = [o for o in outs if o.kind != "next"]
            if not nexts:
                return new
            for o in nexts:
                new.extend(self.exec_stmt(c, o.st, fr))
            outs = new
        return outs

    def s_AttributedStmt(self, n, st, fr):
        return self.exec_stmt(self.inner(n)[-1], st, fr)

    def s_DeclStmt(self, n, st, fr):
        for d in self.inner(n):
            k = d["kind"]
            if k in ("VarDecl", "DecompositionDecl"):
                self.declare(d, st, fr)
            elif k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl",
                       "StaticAssertDecl", "NamespaceAliasDecl"):
                pass
            else:
                raise Unsupported("declaration " + k)
            if FALSE in st.ctx.fset:
                return []
        return [Outcome("next", st)]

    def declare(self, d, st, fr):
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr") and c["kind"] != "BindingDecl"]
        t = ntype(d["type"])
        if d.get("storageClass") == "static":
            q = d["type"].get("qualType", "")
            if not (q.startswith("const ") or d.get("constexpr")):
                raise Unsupported("static local variable")
        if is_ref(d["type"]):
            path = self.lval(init[-1], st, fr)
            fr.vars[d["id"]] = ("path", path)
        else:
            if init:
                if t[0] == "span":
                    v = self.to_span(init[-1], st, fr) if len(self.inner(init[-1])) <= 1 or init[-1]["kind"] != "CXXConstructExpr" else self.eval(init[-1], st, fr)
                else:
                    v = self.convert(self.eval(init[-1], st, fr), t, st)
                    if t[0] == "int" and isinstance(v, Poly) and not int_sorted(v):
                        v = self.trunc(v, st)
            else:
                v = self.uninit(t)
            fr.vars[d["id"]] = ("root", self.new_root(d.get("name", "var"), v, st, t))
        if d["kind"] == "DecompositionDecl":
            e = fr.vars[d["id"]]
            base = (e[1], ()) if e[0] == "root" else e[1]
            bv = self.read_path(base, st)
            bs = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
            for i, b in enumerate(bs):
                if isinstance(bv, StructVal):
                    keys = list(bv.f)
                    path = (base[0], base[1] + (("f", keys[i]),))
                elif isinstance(bv, VecVal):
                    path = (base[0], base[1] + (("i", P(i)),))
                elif FALSE in st.ctx.fset:          # unreachable: the initialiser never returned
                    path = base
                else:
                    raise Unsupported("structured binding of %r" % (type(bv),))
                fr.vars[b["id"]] = ("path", path)

    def s_ReturnStmt(self, n, st, fr):
        i = self.inner(n)
        v = None
        if i:
            rt = fr.fn["type"]["qualType"] if fr.fn else ""
            v = self.eval(i[0], st, fr)
        if FALSE in st.ctx.fset:
            return []
        return [Outcome("ret", st, v)]

    def s_BreakStmt(self, n, st, fr):
        return [Outcome("break", st)]

    def s_ContinueStmt(self, n, st, fr):
        return [Outcome("cont", st)]

    def s_IfStmt(self, n, st, fr):
        kids = n["inner"]
        kids = [c for c in kids]
        i = 0
        if n.get("hasInit"):
            outs = self.exec_stmt(kids[i], st, fr)
            i += 1
        if n.get("hasVar"):
            self.exec_stmt(kids[i], st, fr)
            i += 1
        cond, then = kids[i], kids[i + 1]
        els = kids[i + 2] if len(kids) > i + 2 and n.get("hasElse") else None
        c = self.as_bool(self.eval(cond, st, fr))
        if FALSE in st.ctx.fset:
            return []
        d = st.ctx.decide(c)
        if d is True or n.get("isConstexpr") and c is TRUE:
            return self.exec_stmt(then, st, fr)
        if d is False:
            return self.exec_stmt(els, st, fr) if els is not None else [Outcome("next", st)]
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(mk_not(c))
        o1 = self.exec_stmt(then, s1, fr)
        o2 = self.exec_stmt(els, s2, fr) if els is not None else [Outcome("next", s2)]
        n1 = [o for o in o1 if o.kind == "next"]
        n2 = [o for o in o2 if o.kind == "next"]
        rest = [o for o in o1 + o2 if o.kind != "next"]
        nx = n1 + n2
        if not nx:
            return rest
        if len(nx) == 1:
            return rest + nx
        ms = st
        self.merge_outs(nx, ms)
        return rest + [Outcome("next", ms)]

    def s_ForStmt(self, n, st, fr):
        from . import loops
        return loops.exec_for(self, n, st, fr)

    def s_WhileStmt(self, n, st, fr):
        from . import loops
        return loops.exec_while(self, n, st, fr)

    def s_DoStmt(self, n, st, fr):
        raise Unsupported("do loop")

    def s_CXXForRangeStmt(self, n, st, fr):
        from . import loops
        return loops.exec_range_for(self, n, st, fr)

    def s_SwitchStmt(self, n, st, fr):
        raise Unsupported("switch")

    def s_CXXTryStmt(self, n, st, fr):
        raise Unsupported("try")


class LV:
    """an lvalue result of a call"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class FnRef:
    __slots__ = ("decl",)

    def __init__(self, decl):
        self.decl = decl


