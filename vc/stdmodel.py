"""Models (assumed contracts) of the C++ standard library pieces and the CBLAS routines the code uses."""
from .exec import *

ASSUMED = set()


def _assume(ex, s):
    ex.assumptions.add(s)


# ---------------------------------------------------------------- operators
def index_node(n):
    """a signed index converted to size_t: a negative one is out of range either way, so the bounds check decides on the signed value"""
    if n["kind"] == "ImplicitCastExpr" and n.get("castKind") == "IntegralCast":
        sub = [c for c in n["inner"] if c.get("kind")][0]
        a, b = ntype(sub["type"]), ntype(n["type"])
        if a[0] == "int" and b[0] == "int" and a[2] and not b[2] and b[1] >= a[1]:
            return sub
    return n


def operator_call(ex, n, c, args, st, fr, want):
    name = c["referencedDecl"]["name"] if c["kind"] == "DeclRefExpr" else c.get("name", "?")
    rid = c.get("referencedDecl", {}).get("id") or c.get("referencedMemberDecl")
    fn = ex.prog.definition(rid) if rid else None
    op = name[len("operator"):] if name.startswith("operator") else name
    if op == "()":
        f = ex.eval(args[0], st, fr)
        if isinstance(f, LambdaVal):
            return ex.call_def(f.node, f.this, [ex.arg(a, st, fr) for a in args[1:]], st, f.frame)
        raise Unsupported("call operator on %r" % (type(f),))
    if fn is not None:
        if fn["kind"] == "CXXMethodDecl":
            return ex.repo_call(fn, ex.lval(args[0], st, fr), args[1:], st, fr)
        return ex.repo_call(fn, None, args, st, fr)
    if op == "=":
        t = ntype(args[0]["type"])
        v = ex.eval(args[1], st, fr)
        if t == ("struct", "std::_Bit_reference") and args[0]["kind"] not in ("MaterializeTemporaryExpr", "CXXOperatorCallExpr"):
            raise Unsupported("assignment through a stored reference to a bit")
        p = ex.lval(args[0], st, fr)
        if t[0] == "span" and isinstance(v, VecVal):
            v = ex.to_span(args[1], st, fr)
        ex.write_path(p, v, st)
        return LV(p)
    if op == "[]":
        t = ntype(args[0]["type"])
        i = ex.eval(index_node(args[1]) if t[0] in ("vec", "arr", "span") else args[1], st, fr)
        if t[0] in ("vec", "arr"):
            p = ex.lval(args[0], st, fr)
            return LV(ex.idx_path(p, ex.num(i), st, _src(args[0]), n))
        v = ex.eval(args[0], st, fr)
        if isinstance(v, (MapVal, JsonVal)):
            return LV((ex.new_root("entry", lookup(v, i), st), ()))
        if isinstance(v, VecVal):
            p = ex.lval(args[0], st, fr)
            return LV(ex.idx_path(p, ex.num(i), st, _src(args[0]), n))
        if isinstance(v, SpanVal):
            k = ex.num(i)
            if v.path is None:
                raise Unsupported("empty span access")
            ex.oblige("bounds", mk_and(mk_le(ZERO, k), mk_lt(k, v.len)), "%s[%s] within span of %s" % (_src(args[0]), k, v.len), st, n)
            return LV(ex.idx_path(v.path, v.off + k, st, _src(args[0]), n))
        if isinstance(v, PtrVal):
            return LV(ex.ptr_elem(v, ex.num(i), st, n))
        if isinstance(v, RevIt):
            return LV(ex.ptr_elem(PtrVal(v.path, v.off), P(-1) - ex.num(i), st, n))
        raise Unsupported("operator[] on %r" % (type(v),))
    if op == "*" and len(args) == 1:
        t = ntype(args[0]["type"])
        if t[0] == "uptr":
            return LV(ex.lval(args[0], st, fr))
        v = ex.eval(args[0], st, fr)
        if isinstance(v, RevIt):
            return LV(ex.ptr_elem(PtrVal(v.path, v.off), P(-1), st, n))
        if isinstance(v, PtrVal):
            return LV(ex.ptr_elem(v, ZERO, st, n))
        raise Unsupported("operator* on %r" % (type(v),))
    if op == "->":
        t = ntype(args[0]["type"])
        if t[0] == "uptr":
            return PtrVal(ex.lval(args[0], st, fr), None)
        return ex.eval(args[0], st, fr)
    if op in ("++", "--"):
        p = ex.lval(args[0], st, fr)
        v = ex.read_path(p, st)
        d = 1 if op == "++" else -1
        if isinstance(v, PtrVal):
            nv = PtrVal(v.path, v.off + d)
        elif isinstance(v, RevIt):
            nv = RevIt(v.path, v.off - d)
        else:
            raise Unsupported("++ on %r" % (type(v),))
        ex.write_path(p, nv, st)
        return v if len(args) == 2 else LV(p)
    if op in ("+=", "-="):
        y = ex.eval(args[1], st, fr)
        p = ex.lval(args[0], st, fr)
        x = ex.read_path(p, st)
        ex.write_path(p, ex.ptr_arith(op[0], x, y, st), st)
        return LV(p)
    a = ex.eval(args[0], st, fr)
    b = ex.eval(args[1], st, fr) if len(args) > 1 else None
    if op == "+" and isinstance(a, StrVal) and isinstance(b, StrVal) and a.s.startswith('"') and b.s.startswith('"'):
        return StrVal(a.s[:-1] + b.s[1:])
    if op in ("+", "-") and b is not None and (isinstance(a, (PtrVal, RevIt)) or isinstance(b, (PtrVal, RevIt))):
        return ex.ptr_arith(op, a, b, st)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        if isinstance(a, (PtrVal, RevIt)):
            return ex.compare(op, a, b, st)
    if op in ("==", "!=") and isinstance(a, StrVal) and isinstance(b, StrVal) and a.term is None and b.term is None:
        return TRUE if (a.s == b.s) == (op == "==") else FALSE
    raise Unsupported("operator%s on %s, %s" % (op, type(a).__name__, type(b).__name__))


def lookup(v, key):
    """entry of a map or JSON value read from outside"""
    if isinstance(v, JsonVal):
        return v.at(key)
    k = key.key() if isinstance(key, StrVal) else key
    if not isinstance(k, Poly):
        raise Unsupported("map key %r" % (key,))
    return v.read(k)


def json_method(ex, n, name, v, args, st, fr):
    if name == "at":
        return LV((ex.new_root("entry", lookup(v, ex.eval(args[0], st, fr)), st), ()))
    if name == "get" or name.startswith("operator "):
        return v.get(ntype(n["type"]), ex.prog)
    if name == "get_to":
        p = ex.lval(args[0], st, fr)
        ex.write_path(p, v.get(ntype(args[0]["type"]), ex.prog), st)
        return LV(p)
    if name == "size":
        return app(v.name + ".len", v.args, "I")
    raise Unsupported("json::" + name)


def _src(n):
    """short description of an expression"""
    while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"):
        n = [c for c in n["inner"] if c.get("kind")][0]
    if n["kind"] == "DeclRefExpr":
        return n["referencedDecl"].get("name", "?")
    if n["kind"] == "MemberExpr":
        return n.get("name", "?")
    return n["kind"]


# ---------------------------------------------------------------- methods of containers
def std_method(ex, n, c, base, args, st, fr):
    name = c.get("name")
    bt = ntype(base["type"])
    if bt[0] == "ptr" and c.get("isArrow"):
        path = ex.arrow_path(base, st, fr)
        v = ex.read_path(path, st)
    elif bt[0] == "uptr" and not c.get("isArrow"):
        if name == "get":
            return PtrVal(ex.lval(base, st, fr), None)
        raise Unsupported("unique_ptr::" + name)
    else:
        v = None
        if bt[0] == "span":
            v = ex.eval(base, st, fr)
            path = None
        else:
            path = ex.lval(base, st, fr)
            v = ex.read_path(path, st)
    if isinstance(v, Opaque):
        raise Unsupported(v.why)
    if isinstance(v, JsonVal):
        return json_method(ex, n, name, v, args, st, fr)
    if isinstance(v, MapVal) and name == "at":
        return LV((ex.new_root("entry", lookup(v, ex.eval(args[0], st, fr)), st), ()))
    if isinstance(v, VecVal) and bt[0] == "map":         # keys in [0,len), absent keys read as zero through operator[]
        if name == "clear":
            ex.write_path(path, VecVal(v.len, ConstArr(zero_of(v.et, ex.prog)), v.et), st)
            return None
        if name == "reserve":
            return None
        raise Unsupported("map::" + name)
    if isinstance(v, VecVal):
        return vec_method(ex, n, name, path, v, args, st, fr, bt)
    if isinstance(v, SpanVal):
        if name in ("size", "ssize"):
            return v.len
        if name == "empty":
            return mk_eq0(v.len)
        if name in ("data", "begin", "cbegin"):
            return PtrVal(v.path, v.off)
        if name in ("end", "cend"):
            return PtrVal(v.path, v.off + v.len)
        if name in ("subspan",):
            o = ex.num(ex.eval(args[0], st, fr))
            a2 = [a for a in args[1:] if a["kind"] != "CXXDefaultArgExpr"]
            l = ex.num(ex.eval(a2[0], st, fr)) if a2 else v.len - o
            return SpanVal(v.path, v.off + o, l)
        if name in ("first", "last"):
            k = ex.num(ex.eval(args[0], st, fr))
            return SpanVal(v.path, v.off if name == "first" else v.off + v.len - k, k)
        if name in ("front", "back"):
            k = ZERO if name == "front" else v.len - 1
            ex.oblige("bounds", mk_lt(ZERO, v.len), "span not empty", st, n)
            return LV(ex.idx_path(v.path, v.off + k, st, "span", n))
        raise Unsupported("span::" + name)
    if name == "operator bool" and bt == ("struct", "std::_Bit_reference") and isinstance(v, B):
        return v
    raise Unsupported("method %s of %r (value %s)" % (name, bt, type(v).__name__))


def vec_method(ex, n, name, path, v, args, st, fr, bt):
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if name in ("size", "ssize"):
        return v.len
    if name == "empty":
        return mk_eq0(v.len)
    if name in ("data", "begin", "cbegin"):
        return PtrVal(path, ZERO)
    if name in ("end", "cend"):
        return PtrVal(path, v.len)
    if name in ("rbegin", "crbegin"):
        return RevIt(path, v.len)
    if name in ("rend", "crend"):
        return RevIt(path, ZERO)
    if name in ("back", "front"):
        k = v.len - 1 if name == "back" else ZERO
        ex.oblige("bounds", mk_lt(ZERO, v.len), "container not empty", st, n)
        return LV((path[0], path[1] + (("i", k),)))
    if name in ("at", "operator[]"):
        k = ex.num(ex.eval(args[0], st, fr))
        if name == "at":
            ok = mk_and(mk_le(ZERO, k), mk_lt(k, v.len))
            d = st.ctx.decide(ok)
            if d is not True:
                st.throws.append((st.pc + (mk_not(ok),), st.ctx.assume(mk_not(ok)), "at() out of range"))
                st.assume(ok)
        return LV(ex.idx_path(path, k, st, "at", n))
    if name in ("push_back", "emplace_back"):
        if len(args) == 1:
            x = ex.convert(ex.eval(args[0], st, fr), v.et, st)
        elif v.et[0] == "vec":
            x = ex.construct_vec(v.et, args, st, fr)
        elif v.et[0] == "struct" and v.et[1] in ex.prog.fields:
            vs = [ex.arg(a, st, fr) for a in args]
            con = ex.contracts.get("ctor:" + v.et[1])
            if con is not None:
                x = con(ex, st, [y[1] if y[0] == "val" else ex.read_path(y[1], st) for y in vs])
            else:
                x = ex.construct(v.et[1], vs, st)
        else:
            raise Unsupported("emplace_back")
        v = ex.read_path(path, st)
        if isinstance(v.arr, ListArr) and v.len.is_const() and int(v.len.const()) == len(v.arr.vals):
            nv = VecVal(v.len + 1, ListArr(v.arr.vals + (x,)), v.et)
        elif v.len.is_zero():
            nv = VecVal(ONE, ListArr((x,)), v.et)
        else:
            nv = VecVal(v.len + 1, UpdArr(v.arr, (), TRUE, v.len, x), v.et)
        ex.write_path(path, nv, st)
        return None
    if name == "pop_back":
        ex.oblige("bounds", mk_lt(ZERO, v.len), "container not empty", st, n)
        ex.write_path(path, VecVal(v.len - 1, v.arr, v.et), st)
        return None
    if name == "resize":
        k = ex.num(ex.eval(args[0], st, fr))
        fill = ex.convert(ex.eval(args[1], st, fr), v.et, st) if len(args) > 1 else zero_of(v.et, ex.prog)
        ex.oblige("size", mk_le(ZERO, k), "new size %s >= 0" % k, st, n)
        nv = VecVal(k, ResizeArr(v.arr, v.len, fill), v.et)
        ex.write_path(path, nv, st)
        return None
    if name == "assign":
        a0 = ex.eval(args[0], st, fr)
        if isinstance(a0, PtrVal):
            a1 = ex.eval(args[1], st, fr)
            src = ex.read_path(a0.path, st)
            k = a1.off - a0.off
            ex.range_ob(src, a0.off, k, "assign", st, n)
            ex.write_path(path, VecVal(k, ShiftArr(src.arr, a0.off), v.et), st)
            return None
        if isinstance(a0, VecVal):
            ex.write_path(path, a0, st)
            return None
        k = ex.num(a0)
        fill = ex.convert(ex.eval(args[1], st, fr), v.et, st)
        ex.oblige("size", mk_le(ZERO, k), "new size %s >= 0" % k, st, n)
        ex.write_path(path, VecVal(k, ConstArr(fill), v.et), st)
        return None
    if name == "fill":
        fill = ex.convert(ex.eval(args[0], st, fr), v.et, st)
        ex.write_path(path, VecVal(v.len, ConstArr(fill), v.et), st)
        return None
    if name == "clear":
        ex.write_path(path, VecVal(ZERO, ConstArr(zero_of(v.et, ex.prog)), v.et), st)
        return None
    if name in ("reserve", "shrink_to_fit"):
        for a in args:
            ex.eval(a, st, fr)
        return None
    if name == "insert" and len(args) == 3:
        a0, a1, a2 = [ex.eval(a, st, fr) for a in args]
        if isinstance(a0, PtrVal) and isinstance(a1, PtrVal) and isinstance(a2, PtrVal) and a0.off is v.len:
            src = ex.read_path(a1.path, st)
            k = a2.off - a1.off
            ex.range_ob(src, a1.off, k, "insert", st, n)
            p = fresh("p")
            ex.write_path(path, VecVal(v.len + k, UpdArr(v.arr, [(p, k)], TRUE, v.len + p, src.arr.read(a1.off + p, st.ctx)), v.et), st)
            return None
    raise Unsupported("vector::%s" % name)


# ---------------------------------------------------------------- free functions
def free_call(ex, n, rd, args, st, fr, want):
    name = rd.get("name")
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    f = _FREE.get(name)
    if f is None:
        raise Unsupported("call of %s" % name)
    return f(ex, n, args, st, fr)


_FREE = {}


def free(*names):
    def deco(f):
        for x in names:
            _FREE[x] = f
        return f
    return deco


@free("exp")
def _exp(ex, n, args, st, fr):
    return exp_(ex.num(ex.eval(args[0], st, fr)))


@free("pow")
def _pow(ex, n, args, st, fr):
    b, e = [ex.num(ex.eval(a, st, fr)) for a in args]
    return pow_(b, e)


@free("sqrt")
def _sqrt(ex, n, args, st, fr):
    return sqrt_(ex.num(ex.eval(args[0], st, fr)))


def sqrt_(p):
    if p.is_const():
        from math import isqrt
        c = p.const()
        if c >= 0:
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return P(Fraction(a, b))
    return P(mk_atom("sqrt", (p,), "R"))


@free("abs", "fabs")
def _abs(ex, n, args, st, fr):
    v = ex.num(ex.eval(args[0], st, fr))
    d = st.ctx.decide(mk_le(ZERO, v))
    if d is True:
        return v
    if d is False:
        return -v
    return ite(mk_le(ZERO, v), v, -v)


@free("floor")
def _floor(ex, n, args, st, fr):
    v = ex.num(ex.eval(args[0], st, fr))
    if st.ctx.prove(mk_le(ZERO, v)):
        return simp_trunc(v, st.ctx)
    # floor(v) = trunc(v) if v>=0 else -ceil(-v): keep exact through a definitional atom
    return P(mk_atom("floor", (v,), "I"))


@free("trunc")
def _trunc(ex, n, args, st, fr):
    return simp_trunc(ex.num(ex.eval(args[0], st, fr)), st.ctx)


@free("isnan", "isinf")
def _isnan(ex, n, args, st, fr):
    ex.eval(args[0], st, fr)
    _assume(ex, "isnan/isinf are false (doubles are real numbers)")
    return FALSE


@free("isfinite")
def _isfinite(ex, n, args, st, fr):
    ex.eval(args[0], st, fr)
    return TRUE


@free("fma")
def _fma(ex, n, args, st, fr):
    a, b, c = [ex.num(ex.eval(x, st, fr)) for x in args]
    return a * b + c


@free("max", "min")
def _minmax(ex, n, args, st, fr):
    nm = ex.callee_decl(n)["referencedDecl"]["name"]
    if len(args) != 2:
        raise Unsupported(nm)
    a, b = [ex.num(ex.eval(x, st, fr)) for x in args]
    c = mk_le(b, a) if nm == "max" else mk_le(a, b)
    d = st.ctx.decide(c)
    if d is not None:
        return a if d else b
    return ite(c, a, b)


@free("clamp")
def _clamp(ex, n, args, st, fr):
    v, lo, hi = [ex.num(ex.eval(x, st, fr)) for x in args]
    return ite(mk_lt(v, lo), lo, ite(mk_lt(hi, v), hi, v))


@free("move", "forward", "as_const", "ref", "cref")
def _move(ex, n, args, st, fr):
    if len(args) != 1:
        raise Unsupported("move range")
    if args[0].get("valueCategory") in ("lvalue", "xvalue"):
        return LV(ex.lval(args[0], st, fr))
    return ex.eval(args[0], st, fr)


@free("swap")
def _swap(ex, n, args, st, fr):
    p, q = ex.lval(args[0], st, fr), ex.lval(args[1], st, fr)
    a, b = ex.read_path(p, st), ex.read_path(q, st)
    ex.write_path(p, b, st)
    ex.write_path(q, a, st)


@free("to_string")
def _to_string(ex, n, args, st, fr):
    return StrVal("number", ex.num(ex.eval(args[0], st, fr)))


@free("parse")
def _parse(ex, n, args, st, fr):
    if "json" not in str(n["type"]):
        raise Unsupported("call of parse")
    return JsonVal("file")


@free("make_tuple", "make_pair", "tie")
def _mktuple(ex, n, args, st, fr):
    return StructVal("tuple", {str(i): ex.eval(a, st, fr) for i, a in enumerate(args)})


@free("make_unique", "make_shared")
def _mkuniq(ex, n, args, st, fr):
    t = ntype(n["type"])
    if t[0] == "uptr" and t[1][0] == "struct" and t[1][1] in ex.prog.fields:
        vs = [ex.arg(a, st, fr) for a in args]
        con = ex.contracts.get("ctor:" + t[1][1])
        if con is not None:
            return con(ex, st, [y[1] if y[0] == "val" else ex.read_path(y[1], st) for y in vs])
        return ex.construct(t[1][1], vs, st)
    raise Unsupported("make_unique of %r" % (t,))


@free("get")
def _get(ex, n, args, st, fr):
    p = ex.lval(args[0], st, fr)
    v = ex.read_path(p, st)
    # the index is a template argument; find it through the referenced declaration's type when unique
    t = ntype(args[0]["type"])
    rt = ntype(n["type"])
    c = ex.callee_decl(n)
    if isinstance(v, StructVal):
        idx = [i for i, x in enumerate(t[1]) if x == rt]
        if len(idx) == 1:
            return LV((p[0], p[1] + (("f", str(idx[0])),)))
    raise Unsupported("std::get")


@free("distance")
def _distance(ex, n, args, st, fr):
    a, b = [ex.eval(x, st, fr) for x in args]
    return ex.ptr_arith("-", b, a, st)


@free("next", "prev")
def _next(ex, n, args, st, fr):
    nm = ex.callee_decl(n)["referencedDecl"]["name"]
    a = ex.eval(args[0], st, fr)
    k = ex.num(ex.eval(args[1], st, fr)) if len(args) > 1 else ONE
    return ex.ptr_arith("+" if nm == "next" else "-", a, k, st)


@free("size", "ssize")
def _size(ex, n, args, st, fr):
    v = ex.eval(args[0], st, fr)
    return v.len


@free("data", "begin", "cbegin")
def _begin(ex, n, args, st, fr):
    p = ex.lval(args[0], st, fr)
    v = ex.read_path(p, st)
    return PtrVal(v.path, v.off) if isinstance(v, SpanVal) else PtrVal(p, ZERO)


@free("end", "cend")
def _end(ex, n, args, st, fr):
    p = ex.lval(args[0], st, fr)
    v = ex.read_path(p, st)
    return PtrVal(v.path, v.off + v.len) if isinstance(v, SpanVal) else PtrVal(p, v.len)


def write_family(ex, dst, n, idx_fn, val_fn, what, st, node, params=None):
    """dst[ idx(p) ] = val(p) for p in [0,n)"""
    path, off = dst.path, dst.off
    v = ex.read_path(path, st)
    p = fresh("p")
    c2 = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, n))
    val = val_fn(p, c2)
    ex.write_path(path, VecVal(v.len, UpdArr(v.arr, [(p, n)], TRUE, idx_fn(p), val), v.et), st)


@free("copy")
def _copy(ex, n, args, st, fr):
    a, b, d = [ex.eval(x, st, fr) for x in args]
    if not (isinstance(a, PtrVal) and isinstance(b, PtrVal) and isinstance(d, PtrVal) and same_path(a.path, b.path)):
        raise Unsupported("copy")
    _copy_n_impl(ex, a, b.off - a.off, d, st, n)
    return PtrVal(d.path, d.off + b.off - a.off)


def _copy_n_impl(ex, a, k, d, st, n):
    src = ex.read_path(a.path, st)
    dst = ex.read_path(d.path, st)
    ex.range_ob(src, a.off, k, "copy source", st, n)
    ex.range_ob(dst, d.off, k, "copy destination", st, n)
    write_family(ex, d, k, lambda p: d.off + p, lambda p, c: src.arr.read(a.off + p, c), "copy", st, n)


@free("copy_n")
def _copy_n(ex, n, args, st, fr):
    a, k, d = [ex.eval(x, st, fr) for x in args]
    _copy_n_impl(ex, a, ex.num(k), d, st, n)
    return PtrVal(d.path, d.off + k)


@free("fill")
def _fill(ex, n, args, st, fr):
    a, b, v = [ex.eval(x, st, fr) for x in args]
    dst = ex.read_path(a.path, st)
    k = b.off - a.off
    ex.range_ob(dst, a.off, k, "fill", st, n)
    if a.off.is_zero() and (b.off is dst.len):
        ex.write_path(a.path, VecVal(dst.len, ConstArr(ex.convert(v, dst.et, st)), dst.et), st)
        return
    write_family(ex, a, k, lambda p: a.off + p, lambda p, c: ex.convert(v, dst.et, st), "fill", st, n)


@free("fill_n")
def _fill_n(ex, n, args, st, fr):
    a, k, v = [ex.eval(x, st, fr) for x in args]
    dst = ex.read_path(a.path, st)
    ex.range_ob(dst, a.off, k, "fill_n", st, n)
    write_family(ex, a, k, lambda p: a.off + p, lambda p, c: ex.convert(v, dst.et, st), "fill", st, n)


@free("iota")
def _iota(ex, n, args, st, fr):
    a, b, v = [ex.eval(x, st, fr) for x in args]
    dst = ex.read_path(a.path, st)
    k = b.off - a.off
    ex.range_ob(dst, a.off, k, "iota", st, n)
    write_family(ex, a, k, lambda p: a.off + p, lambda p, c: v + p, "iota", st, n)


def rounds(init, src):
    """the type of the initial value is the type of the running sum"""
    if init is None or src.et not in (("double",), ("float",)):
        return
    t = ntype(init["type"])
    if t not in (("double",), ("float",)) or (t == ("float",) and src.et == ("double",)):
        raise Unsupported("a sum of %s in a variable of type %s" % (src.et[0], t[0]))


@free("count")
def _count(ex, n, args, st, fr):
    a, b, v = [ex.eval(x, st, fr) for x in args]
    src = ex.read_path(a.path, st)
    k = b.off - a.off
    ex.range_ob(src, a.off, k, "count", st, n)
    p = fresh("p")
    x = src.arr.read(a.off + p, st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k)))
    if isinstance(x, B) and isinstance(v, B) and v.kind == "const":
        return mk_sum(p, k, ind(x if v is TRUE else mk_not(x)))
    return mk_sum(p, k, ind(mk_eq(ex.num(x), ex.num(v))))


@free("accumulate", "reduce")
def _accumulate(ex, n, args, st, fr):
    a, b = [ex.eval(x, st, fr) for x in args[:2]]
    init = ex.num(ex.eval(args[2], st, fr)) if len(args) > 2 else ZERO
    if len(args) > 3:
        raise Unsupported("accumulate with operation")
    src = ex.read_path(a.path, st)
    rounds(args[2] if len(args) > 2 else None, src)
    k = b.off - a.off
    ex.range_ob(src, a.off, k, "accumulate", st, n)
    p = fresh("p")
    c2 = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    return init + mk_sum(p, k, ex.num(src.arr.read(a.off + p, c2)))


@free("inner_product")
def _inner(ex, n, args, st, fr):
    a, b, c = [ex.eval(x, st, fr) for x in args[:3]]
    init = ex.num(ex.eval(args[3], st, fr))
    if len(args) > 4:
        raise Unsupported("inner_product with operations")
    s1, s2 = ex.read_path(a.path, st), ex.read_path(c.path, st)
    rounds(args[3], s1)
    rounds(args[3], s2)
    k = b.off - a.off
    ex.range_ob(s1, a.off, k, "inner_product", st, n)
    ex.range_ob(s2, c.off, k, "inner_product", st, n)
    p = fresh("p")
    c2 = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    return init + mk_sum(p, k, ex.num(s1.arr.read(a.off + p, c2)) * ex.num(s2.arr.read(c.off + p, c2)))


@free("transform")
def _transform(ex, n, args, st, fr):
    vs = [ex.eval(x, st, fr) for x in args]
    a, b = vs[0], vs[1]
    k = b.off - a.off
    f = vs[-1]
    if not isinstance(f, LambdaVal):
        raise Unsupported("transform functor")
    srcs = [a] + ([vs[2]] if len(vs) == 5 else [])
    d = vs[-2]
    for s in srcs:
        ex.range_ob(ex.read_path(s.path, st), s.off, k, "transform source", st, n)
    dst = ex.read_path(d.path, st)
    ex.range_ob(dst, d.off, k, "transform destination", st, n)
    p = fresh("p")
    s2 = st.copy()
    s2.ctx = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    # elements are read before the corresponding write: same-cell in-place transforms are pointwise
    xs = []
    for s in srcs:
        if same_path(s.path, d.path) and not (s.off is d.off):
            raise Unsupported("overlapping transform")
        xs.append(ex.read_path(s.path, st).arr.read(s.off + p, s2.ctx))
    before = dict(s2.mem)
    val = ex.call_def(f.node, f.this, [("val", x) for x in xs], s2, f.frame)
    for r, v in before.items():
        if s2.mem.get(r) is not v:
            raise Unsupported("transform functor with side effects")
    ex.write_path(d.path, VecVal(dst.len, UpdArr(dst.arr, [(p, k)], TRUE, d.off + p, ex.convert(val, dst.et, st)), dst.et), st)
    return PtrVal(d.path, d.off + k)


# ---------------------------------------------------------------- CBLAS (assumed contracts)
def _enum(v):
    if not isinstance(v, StrVal):
        raise Unsupported("CBLAS flag is not a constant")
    return v.s


def _strided(ex, ptr, count, inc, what, st, node):
    v = ex.read_path(ptr.path, st)
    ex.oblige("blas", mk_or(mk_le(count, ZERO), mk_and(mk_le(ZERO, ptr.off), mk_lt(ptr.off + (count - 1) * inc, v.len))),
              "%s: strided vector of %s within length %s" % (what, count, v.len), st, node)
    return v


def _matrix(ex, ptr, rows, cols, ld, what, st, node):
    v = ex.read_path(ptr.path, st)
    ex.oblige("blas", mk_or(mk_le(rows, ZERO), mk_le(cols, ZERO),
                            mk_and(mk_le(ZERO, ptr.off), mk_le(ptr.off + (rows - 1) * ld + cols, v.len))),
              "%s: %s x %s matrix within length %s" % (what, rows, cols, v.len), st, node)
    ex.oblige("blas", mk_or(mk_le(rows, ONE), mk_le(cols, ld)), "%s: leading dimension %s >= %s" % (what, ld, cols), st, node)
    return v


def _blasargs(ex, args, st, fr):
    return [ex.eval(a, st, fr) for a in args]


@free("cblas_dgemv")
def _dgemv(ex, n, args, st, fr):
    lay, tr, m, nn, al, a, lda, x, incx, be, y, incy = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_dgemv computes alpha*op(A)*x+beta*y")
    row = _enum(lay) == "CblasRowMajor"
    t = _enum(tr) in ("CblasTrans", "CblasConjTrans")
    if not row:
        m, nn, t = nn, m, not t
    # row-major m x nn matrix; t: y = A^T x
    A = _matrix(ex, a, m, nn, lda, "dgemv A", st, n)
    ylen, xlen = (nn, m) if t else (m, nn)
    ex.oblige("blas", mk_and(mk_lt(ZERO, incx), mk_lt(ZERO, incy)), "dgemv strides positive", st, n)
    X = _strided(ex, x, xlen, incx, "dgemv x", st, n)
    Y = _strided(ex, y, ylen, incy, "dgemv y", st, n)
    p, q = fresh("p"), fresh("q")
    c2 = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, ylen))
    c3 = c2.assume(mk_le(ZERO, q), mk_lt(q, xlen))
    aidx = a.off + (q * lda + p if t else p * lda + q)
    body = ex.num(A.arr.read(aidx, c3)) * ex.num(X.arr.read(x.off + q * incx, c3))
    val = al * mk_sum(q, xlen, body)
    idx = y.off + p * incy
    if not be.is_zero():
        val = val + be * ex.num(Y.arr.read(idx, c2))
    ex.write_path(y.path, VecVal(Y.len, UpdArr(Y.arr, [(p, ylen)], TRUE, idx, val), Y.et), st)


@free("cblas_dgemm")
def _dgemm(ex, n, args, st, fr):
    lay, ta, tb, m, nn, k, al, a, lda, b, ldb, be, c, ldc = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_dgemm computes alpha*op(A)*op(B)+beta*C")
    ta = _enum(ta) in ("CblasTrans", "CblasConjTrans")
    tb = _enum(tb) in ("CblasTrans", "CblasConjTrans")
    if _enum(lay) != "CblasRowMajor":
        m, nn, a, b, lda, ldb, ta, tb = nn, m, b, a, ldb, lda, tb, ta
    A = _matrix(ex, a, k if ta else m, m if ta else k, lda, "dgemm A", st, n)
    Bm = _matrix(ex, b, nn if tb else k, k if tb else nn, ldb, "dgemm B", st, n)
    C = _matrix(ex, c, m, nn, ldc, "dgemm C", st, n)
    i, j, q = fresh("p"), fresh("p"), fresh("q")
    c2 = st.ctx.assume(mk_le(ZERO, i), mk_lt(i, m), mk_le(ZERO, j), mk_lt(j, nn))
    c3 = c2.assume(mk_le(ZERO, q), mk_lt(q, k))
    av = ex.num(A.arr.read(a.off + (q * lda + i if ta else i * lda + q), c3))
    bv = ex.num(Bm.arr.read(b.off + (j * ldb + q if tb else q * ldb + j), c3))
    val = al * mk_sum(q, k, av * bv)
    idx = c.off + i * ldc + j
    if not be.is_zero():
        val = val + be * ex.num(C.arr.read(idx, c2))
    ex.write_path(c.path, VecVal(C.len, UpdArr(C.arr, [(i, m), (j, nn)], TRUE, idx, val), C.et), st)


@free("cblas_ddot")
def _ddot(ex, n, args, st, fr):
    k, x, ix, y, iy = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_ddot computes the dot product")
    X = _strided(ex, x, k, ix, "ddot x", st, n)
    Y = _strided(ex, y, k, iy, "ddot y", st, n)
    q = fresh("q")
    c = st.ctx.assume(mk_le(ZERO, q), mk_lt(q, k))
    return mk_sum(q, k, ex.num(X.arr.read(x.off + q * ix, c)) * ex.num(Y.arr.read(y.off + q * iy, c)))


@free("cblas_dcopy")
def _dcopy(ex, n, args, st, fr):
    k, x, ix, y, iy = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_dcopy copies the vector")
    X = _strided(ex, x, k, ix, "dcopy x", st, n)
    Y = _strided(ex, y, k, iy, "dcopy y", st, n)
    ex.oblige("blas", mk_lt(ZERO, iy), "dcopy stride positive", st, n)
    p = fresh("p")
    c = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    ex.write_path(y.path, VecVal(Y.len, UpdArr(Y.arr, [(p, k)], TRUE, y.off + p * iy, X.arr.read(x.off + p * ix, c)), Y.et), st)


@free("cblas_dscal")
def _dscal(ex, n, args, st, fr):
    k, al, x, ix = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_dscal scales the vector")
    X = _strided(ex, x, k, ix, "dscal x", st, n)
    p = fresh("p")
    c = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    i = x.off + p * ix
    ex.write_path(x.path, VecVal(X.len, UpdArr(X.arr, [(p, k)], TRUE, i, al * ex.num(X.arr.read(i, c))), X.et), st)


@free("cblas_daxpy")
def _daxpy(ex, n, args, st, fr):
    k, al, x, ix, y, iy = _blasargs(ex, args, st, fr)
    _assume(ex, "cblas_daxpy computes y += alpha*x")
    X = _strided(ex, x, k, ix, "daxpy x", st, n)
    Y = _strided(ex, y, k, iy, "daxpy y", st, n)
    p = fresh("p")
    c = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, k))
    i = y.off + p * iy
    ex.write_path(y.path, VecVal(Y.len, UpdArr(Y.arr, [(p, k)], TRUE, i, ex.num(Y.arr.read(i, c)) + al * ex.num(X.arr.read(x.off + p * ix, c))), Y.et), st)
