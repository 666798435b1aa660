"""Types, values, arrays and memory paths of the symbolic executor."""
from .terms import *
from .terms import _fresh as FRESH
from .prover import *


class Unsupported(Exception):
    """the construct is outside the verifier's reach (a tool limit, never a verdict)"""


# ---------------------------------------------------------------- types
def split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<({[":
            depth += 1
        elif ch in ">)}]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
         "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "char": (8, True),
         "signed char": (8, True), "unsigned char": (8, False), "unsigned short": (16, False), "unsigned": (32, False),
         "size_t": (64, False), "std::size_t": (64, False), "size_type": (64, False), "difference_type": (64, True),
         "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "int32_t": (32, True), "int64_t": (64, True),
         "std::int32_t": (32, True), "std::int64_t": (64, True), "uint64_t": (64, False), "std::uint64_t": (64, False),
         "__int128": (128, True), "blasint": (32, True)}
_tc = {}


def parse_type(s):
    r = _tc.get(s)
    if r is None:
        r = _parse_type(s)
        _tc[s] = r
    return r


def _parse_type(s):
    s = s.strip()
    ref = False
    while s.endswith("&"):
        s = s[:-1].strip()
        ref = True
    if s.endswith("const") and (s.endswith("*const") or s.endswith(" const")):
        s = s[:-5].strip()
    if s.endswith("*"):
        return ("ptr", parse_type(s[:-1]))
    while s.startswith("const ") or s.startswith("volatile "):
        s = s.split(" ", 1)[1]
    for pre in ("struct ", "class ", "enum ", "typename "):
        if s.startswith(pre):
            s = s[len(pre):]
    if s == "double":
        return ("double",)
    if s in ("float", "long double"):
        return ("real", s)
    if s == "bool":
        return ("bool",)
    if s == "void":
        return ("void",)
    if s in _INTS:
        return ("int",) + _INTS[s]
    if s.endswith("]") and "[" in s:
        base, n = s[:-1].rsplit("[", 1)
        if n.strip().isdigit():
            return ("arr", parse_type(base), int(n))
    if s.endswith(">") and "<" in s:
        head, rest = s.split("<", 1)
        args = split_targs(rest[:-1])
        head = head.replace("std::__1::", "std::").replace("std::__cxx11::", "std::")
        if head in ("std::vector", "vector"):
            return ("vec", parse_type(args[0]))
        if head in ("std::initializer_list", "initializer_list"):
            return ("vec", parse_type(args[0]))
        if head in ("std::array", "array"):
            return ("arr", parse_type(args[0]), int(args[1].rstrip("uUlL")))
        if head in ("std::span", "span"):
            return ("span", parse_type(args[0]))
        if head in ("std::tuple", "tuple", "std::pair", "pair"):
            return ("tuple", tuple(parse_type(a) for a in args))
        if head in ("std::unique_ptr", "unique_ptr", "std::shared_ptr", "std::optional"):
            return ("uptr", parse_type(args[0]))
        if head in ("std::map", "map", "std::unordered_map", "unordered_map"):
            return ("map", parse_type(args[0]), parse_type(args[1]))
        if head.endswith("__normal_iterator"):
            p = parse_type(args[0])
            return p
        if head.endswith("_Vector_base") or head.endswith("_Vector_impl"):
            return ("other", s)
        return ("other", s)
    return ("struct", s)


def ntype(t):
    """type descriptor of a clang type dict"""
    q = t.get("qualType", "")
    r = parse_type(q)
    if r[0] in ("struct", "other") and t.get("desugaredQualType"):
        r2 = parse_type(t["desugaredQualType"])
        if r2[0] not in ("struct", "other") or r[0] == "other":
            return r2
        if r2[0] == "struct":
            return r2
    return r


def is_ref(t):
    q = t.get("qualType", "").strip()
    d = t.get("desugaredQualType", "").strip()
    return q.endswith("&") or d.endswith("&")


# ---------------------------------------------------------------- values
class VecVal:
    __slots__ = ("len", "arr", "et")

    def __init__(self, len, arr, et):
        self.len, self.arr, self.et = P(len), arr, et

    def __repr__(self):
        return "Vec<%s>(len=%s, %r)" % (self.et, self.len, self.arr)


class StructVal:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        d = dict(self.f)
        d[name] = v
        return StructVal(self.cls, d)

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


class PtrVal:
    __slots__ = ("path", "off")

    def __init__(self, path, off):
        self.path, self.off = path, off

    def __repr__(self):
        return "&%r[%s]" % (self.path, self.off)


class SpanVal:
    __slots__ = ("path", "off", "len")

    def __init__(self, path, off, len):
        self.path, self.off, self.len = path, off, len


class LambdaVal:
    __slots__ = ("node", "frame", "this")

    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class RevIt:
    """reverse iterator: refers to element off-1 of path"""
    __slots__ = ("path", "off")

    def __init__(self, path, off):
        self.path, self.off = path, off


class StrVal:
    """a string: a literal, or the decimal text of an integer term"""
    __slots__ = ("s", "term")

    def __init__(self, s, term=None):
        self.s, self.term = s, term

    def key(self):
        """the integer whose decimal text this is, or None"""
        if self.term is not None:
            return self.term
        t = self.s.strip('"')
        if t is self.s:
            return None
        return P(int(t)) if t.isdigit() and (t == "0" or t[0] != "0") else None


class MapVal:
    """a map read from outside: key -> value as a family of symbols"""
    __slots__ = ("name", "args", "vt", "prog")

    def __init__(self, name, args, vt, prog):
        self.name, self.args, self.vt, self.prog = name, args, vt, prog

    def read(self, key):
        return make_sym(self.vt, self.name, self.args + (key,), self.prog)


class JsonVal:
    """a JSON value read from outside: its members and elements as families of symbols"""
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def at(self, key):
        if isinstance(key, StrVal):
            k = key.key()
            if k is not None:
                return JsonVal(self.name, self.args + (k,))
            if not key.s.startswith('"'):
                raise Unsupported("computed JSON key")
            return JsonVal(self.name + "." + key.s.strip('"'), self.args)
        return JsonVal(self.name, self.args + (key,))

    def get(self, t, prog):
        return make_sym(t, self.name, self.args, prog)


class Opaque:
    """a value the executor does not model; any use is a tool limit"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Opaque(%s)" % self.why


class Root:
    __slots__ = ("name", "n", "ty")
    _c = itertools.count()

    def __init__(self, name, ty=None):
        self.name, self.n, self.ty = name, next(Root._c), ty

    def __repr__(self):
        return "%s@%d" % (self.name, self.n)


# ---------------------------------------------------------------- arrays
class Arr:
    pass


class SymArr(Arr):
    __slots__ = ("name", "args", "et", "prog")

    def __init__(self, name, args, et, prog):
        self.name, self.args, self.et, self.prog = name, tuple(args), et, prog

    def read(self, k, ctx):
        return make_sym(self.et, self.name, self.args + (k,), self.prog)

    def __repr__(self):
        return "%s%r" % (self.name, self.args)


class ConstArr(Arr):
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def read(self, k, ctx):
        return self.val

    def __repr__(self):
        return "const(%r)" % (self.val,)


class LamArr(Arr):
    """spec-provided array: fn(k) -> Value (fn must be closed under substitution via xf)"""
    __slots__ = ("fn", "xs")

    def __init__(self, fn, xs=()):
        self.fn, self.xs = fn, tuple(xs)

    def read(self, k, ctx):
        v = self.fn(k)
        for x in self.xs:
            v = x.value(v, ctx)
        return v


class ListArr(Arr):
    """explicit elements 0..n-1"""
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def read(self, k, ctx):
        if k.is_const():
            i = int(k.const())
            if 0 <= i < len(self.vals):
                return self.vals[i]
            return self.vals[-1] if self.vals else P(0)
        r = None
        n = len(self.vals)
        for i in reversed(range(n)):
            b = mk_eq(k, P(i))
            if r is None:
                r = self.vals[i]
                continue
            d = ctx.decide(b)
            if d is True:
                return self.vals[i]
            if d is False:
                continue
            r = ite_value(b, self.vals[i], r)
        return r if r is not None else P(0)


class ResizeArr(Arr):
    __slots__ = ("base", "n", "fill")

    def __init__(self, base, n, fill):
        self.base, self.n, self.fill = base, n, fill

    def read(self, k, ctx):
        b = mk_lt(k, self.n)
        d = ctx.decide(b)
        if d is True:
            return self.base.read(k, ctx)
        if d is False:
            return self.fill
        return ite_value(b, self.base.read(k, ctx.assume(b)), self.fill)


class IteArr(Arr):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, k, ctx):
        d = ctx.decide(self.c)
        if d is True:
            return self.a.read(k, ctx)
        if d is False:
            return self.b.read(k, ctx)
        return ite_value(self.c, self.a.read(k, ctx.assume(self.c)), self.b.read(k, ctx.assume(mk_not(self.c))))


class ShiftArr(Arr):
    """k -> base[k+off]"""
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base, self.off = base, off

    def read(self, k, ctx):
        return self.base.read(k + self.off, ctx)


class UpdArr(Arr):
    """base updated for all parameter values in their ranges (params: [(var Poly, hi)]) where guard holds:
    mode 'set': [idx] = val ; mode 'add': [idx] += val.  For 'set' the executor has proved that no cell is
    written twice with different parameters."""
    __slots__ = ("base", "params", "guard", "idx", "val", "mode")

    def __init__(self, base, params, guard, idx, val, mode="set"):
        self.base, self.params, self.guard, self.idx, self.val, self.mode = base, tuple(params), guard, idx, val, mode

    def __repr__(self):
        return "Upd[%s %r g=%r idx=%s val=%r](%r)" % (self.mode, self.params, self.guard, self.idx, self.val, self.base)

    def pctx(self, ctx, sub=None):
        fs = []
        for v, h in self.params:
            fs += [mk_le(ZERO, v), mk_lt(v, h)]
        fs.append(self.guard)
        return ctx.assume(*fs)

    def instance(self, params):
        """(idx, val, guard incl. ranges) at the given parameter values"""
        sub = {v.as_atom(): p for (v, h), p in zip(self.params, params)}
        rng = []
        for (v, h), p in zip(self.params, params):
            rng += [mk_le(ZERO, p), mk_lt(p, subst(h, sub))]
        x = XSubst(sub)
        return subst(self.idx, sub), x.value(self.val, None), mk_and(x.b(self.guard), *rng)

    def read(self, k, ctx):
        if not self.params:
            b = mk_and(mk_eq(self.idx, k), self.guard)
            d = ctx.decide(b)
            if d is None and prove_ne(ctx, self.idx - k):
                d = False
            if self.mode == "set":
                if d is True:
                    return self.val
                if d is False:
                    return self.base.read(k, ctx)
                return ite_value(b, self.val, self.base.read(k, ctx.assume(mk_not(b))))
            bv = self.base.read(k, ctx)
            return bv if d is False else bv + ind(b) * self.val
        if self.mode == "mark":                  # the same truth value written to cells that need not be distinct
            hit = self.solve(k, ctx)
            if hit is not None and ctx.decide(self.instance(hit)[2]) is True:
                return self.val
            fs = self.fresh_instance()
            idx, val, g = self.instance(fs)
            bv = self.base.read(k, ctx)
            if prove_ne(ctx.assume(g), idx - k):
                return bv
            sub = {v.as_atom(): f for (v, _), f in zip(self.params, fs)}
            binders = [(f, subst(h, sub)) for f, (v, h) in zip(fs, self.params)]
            some = mk_lt(ZERO, mk_msum(binders, ind(mk_eq(idx, k)) * ind(XSubst(sub).b(self.guard))))
            return ite_value(some, self.val, bv)
        if self.mode == "set":
            hit = self.solve(k, ctx)
            if hit is not None:
                idx, val, g = self.instance(hit)
                d = ctx.decide(g)
                if d is True:
                    return val
                if d is False:
                    return self.base.read(k, ctx)
                # idx(hit)==k identically and idx injective: hit iff g
                return ite_value(g, val, self.base.read(k, ctx.assume(mk_not(g))))
            fs = self.fresh_instance()
            idx, val, g = self.instance(fs)
            if prove_ne(ctx.assume(g), idx - k):
                return self.base.read(k, ctx)
            # symbolic: sum with Kronecker delta
            if OPAQUE is not None and isinstance(val, Poly):
                return ghost_content(self, k)
            if isinstance(val, Poly):
                binders = list(zip(fs, [subst(h, {v.as_atom(): f for (v, _), f in zip(self.params, fs)})
                                        for v, h in self.params]))
                gg = XSubst({v.as_atom(): f for (v, _), f in zip(self.params, fs)}).b(self.guard)
                w = ind(mk_eq(idx, k)) * ind(gg)
                bv = self.base.read(k, ctx)
                s1 = mk_msum(binders, w * val)
                s0 = mk_msum(binders, w)
                return s1 + (ONE - s0) * bv
            raise Unsupported("read of a nested array at an unresolved index %s of %s" % (k, self.idx))
        # add
        fs = self.fresh_instance()
        sub = {v.as_atom(): f for (v, _), f in zip(self.params, fs)}
        idx, val, g = self.instance(fs)
        bv = self.base.read(k, ctx)
        if prove_ne(ctx.assume(g), idx - k):
            return bv
        binders = [(f, subst(h, sub)) for f, (v, h) in zip(fs, self.params)]
        gg = XSubst(sub).b(self.guard)
        if OPAQUE is not None and isinstance(val, Poly) and not euclid_solves(idx - k, fs, ctx.assume(g)):
            hit = self.solve(k, ctx)
            if hit is not None:
                from .loops import distinct_cells
                i1, v1, g1 = self.instance(hit)
                if distinct_cells(self.params, self.guard, self.idx, self.pctx(ctx)):
                    d = ctx.decide(g1)
                    return bv if d is False else bv + v1 * (ONE if d else ind(g1))
            return ghost_content(self, k)
        # drop the delta for parameters that provably coincide (euclid)
        body = kron(idx - k, ctx.assume(g)) * ind(gg) * val
        return bv + simplify(mk_msum(binders, body), ctx)

    def fresh_instance(self):
        return [fresh("p") for _ in self.params]

    def solve(self, k, ctx):
        """parameters with idx == k identically, or None"""
        return solve_index(self.idx, self.params, k, ctx, self.guard)


OPAQUE = None       # name -> array: contents of accumulated arrays read at cells that cannot be resolved (ghost functions)


def euclid_solves(d, fs, ctx):
    """the parameters fs are determined by d == 0"""
    left = {f.as_atom() for f in fs}
    eqs = list(euclid_split(d, ctx))
    while left:
        for e in eqs:
            hit = None
            for a in left & e.fv:
                co = lin_coeff(e, a)
                if co is not None and co.is_const() and not (e.fv & left - {a}):
                    hit = a
            if hit is not None:
                left.discard(hit)
                break
        else:
            return False
    return True


def family_key(a):
    if not isinstance(a, UpdArr):
        return a if isinstance(a, (SymArr,)) else repr(a)
    ren = {v.as_atom(): var("%%P%d" % i) for i, (v, _) in enumerate(a.params)}
    x = XSubst(ren)
    return (a.mode, tuple(subst(h, ren) for _, h in a.params), x.b(a.guard), subst(a.idx, ren), subst(a.val, ren), family_key(a.base))


def ghost_name(arr):
    """name of the content of the array, and the local variables it depends on"""
    key = family_key(arr)
    for nm, (k2, fv, a2) in OPAQUE.items():
        if k2 == key:
            return nm, fv
    fv = set()
    b = arr
    while isinstance(b, UpdArr):
        own = {v.as_atom() for v, _ in b.params}
        for t in [b.idx, b.val, b.guard] + [h for _, h in b.params]:
            fv |= {a for a in t.fv if "!" in str(a.args[0])} - own
        b = b.base
    if isinstance(b, SymArr):
        for t in b.args:
            fv |= {a for a in t.fv if "!" in str(a.args[0])}
    elif not isinstance(b, ConstArr):
        raise Unsupported("content of %r" % type(b))
    fv = tuple(sorted(fv, key=str))
    nm = "content%d!" % (len(OPAQUE) + 1)
    OPAQUE[nm] = (key, fv, arr)
    return nm, fv


def ghost_content(arr, k):
    nm, fv = ghost_name(arr)
    return app(nm, tuple(P(a) for a in fv) + (k,))


def ghost_unfold(a, ctx):
    """the content at a cell that can be resolved now, or None"""
    _, fv, arr = OPAQUE[a.args[0]]
    args = a.args[1:]
    x = XSubst(dict(zip(fv, args[:-1])))
    v = map_arr(arr, x).read(args[-1], ctx)
    return None if v.as_atom() is a or (v.as_atom() is not None and v.as_atom().kind == "app" and v.as_atom().args[0] in OPAQUE) else v


class SpecArr(Arr):
    """array known through a proved invariant: cell(k, ctx) gives the specified value of a cell, or None"""
    __slots__ = ("base", "cell", "frozen")

    def __init__(self, base, cell, frozen):
        self.base, self.cell, self.frozen = base, cell, frozen

    def read(self, k, ctx):
        v = self.cell(k, ctx)
        return self.base.read(k, ctx) if v is None else v


def kron(d, ctx):
    """indicator of d == 0, split by euclidean division where the context allows"""
    parts = euclid_split(d, ctx)
    r = ONE
    for q in parts:
        r = r * ind(mk_eq0(q))
    return r


_solve_memo = {}


def solve_index(idx, params, k, ctx, guard=TRUE):
    key = (idx, params, k, ctx.facts, guard)
    if key in _solve_memo:
        return _solve_memo[key]
    r = _solve_index(idx, params, k, ctx, guard)
    _solve_memo[key] = r
    return r


def _solve_index(idx, params, k, ctx, guard):
    if any(v.as_atom() in k.fv for v, _ in params):
        ren = {v.as_atom(): fresh("q") for v, _ in params}
        idx, guard = subst(idx, ren), XSubst(ren).b(guard)
        params = tuple((ren[v.as_atom()], subst(h, ren)) for v, h in params)
    pv = [v.as_atom() for v, _ in params]

    def zero(d):
        if d.is_zero():
            return True
        eqs = ctx.oriented()[0]
        return bool(eqs) and subst(d, eqs).is_zero()
    # 1. single parameter, linear with unit coefficient
    if len(pv) == 1:
        co = lin_coeff(idx, pv[0])
        if co is not None and co.is_const() and abs(co.const()) == 1:
            s = (k - subst(idx, {pv[0]: ZERO})) * (1 / co.const())
            return [s]
    # 2. assume a solution exists: derive the parameters by euclidean splitting
    fs = [fresh("q") for _ in pv]
    sub = dict(zip(pv, fs))
    facts = []
    for (v, h), f in zip(params, fs):
        facts += [mk_le(ZERO, f), mk_lt(f, subst(h, sub))]
    c = ctx.assume(*facts)
    eqs = euclid_split(subst(idx, sub) - k, c)
    sol = {}
    work = list(eqs)
    for _ in range(len(fs) + 1):
        for e in list(work):
            e2 = subst(e, sol) if sol else e
            for f in fs:
                a = f.as_atom()
                if a in sol or a not in e2.fv:
                    continue
                co = lin_coeff(e2, a)
                if co is not None and co.is_const() and abs(co.const()) == 1:
                    val = f - e2 * (1 / co.const())
                    if not (val.fv & {x.as_atom() for x in fs}):
                        sol = {kk: subst(vv, {a: val}) for kk, vv in sol.items()}
                        sol[a] = val
                        break
    if len(sol) == len(fs):
        cand = [sol[f.as_atom()] for f in fs]
        if zero(subst(idx, dict(zip(pv, cand))) - k):
            return cand
    # 3. structural candidates (prefix sums / applications, coefficients); the cells of the family are distinct, so a
    # candidate is the solution if it lies in the range of the parameters and satisfies the guard
    def accept(cand):
        sub = dict(zip(pv, cand))
        if not zero(subst(idx, sub) - k) or not all(_norm_int_(z) for z in cand):
            return False
        gs = [XSubst(sub).b(guard)] if guard is not TRUE else []
        for (v, h), z in zip(params, cand):
            gs += [mk_le(ZERO, z), mk_lt(z, subst(h, sub))]
        return all(ctx.decide(g) is True for g in gs)
    cand = unify_index(idx, pv, k)
    if cand is not None and accept(cand):
        return cand
    tried = set()
    for part in unify_partial(idx, pv, k):
        key = tuple(part.get(v) for v in pv)
        if key in tried:
            continue
        tried.add(key)
        cand = by_coefficients(subst(idx, part), [v for v in pv if v not in part], k)
        if cand is not None:
            part = {v: subst(z, cand) for v, z in part.items()}
            part.update(cand)
            cand = [part[v] for v in pv]
            if accept(cand):
                return cand
    # 4. positions quadratic in a parameter (rows of decreasing length): the variables of k themselves
    if len(pv) <= 2 and any(e > 1 and a in pv for m in idx.t for a, e in m):
        import itertools
        vs = [a for a in k.fv if a.kind == "var" and a.sort == "I"]
        if len(vs) <= 5:
            for ch in itertools.permutations(vs, len(pv)):
                cand = [P(a) for a in ch]
                if accept(cand):
                    return cand
    # 5. piecewise positions: one case at a time
    for a in {a for m in idx.t for a, e in m if a.kind == "ind" and (a.fv & set(pv))}:
        for val, b in ((ONE, a.args[0]), (ZERO, mk_not(a.args[0]))):
            part = with_atom(idx, a, val)
            cand = solve_index(part, params, k, ctx, mk_and(guard, b))
            if cand is not None and all(ctx.decide(g) is True for g in [XSubst(dict(zip(pv, cand))).b(mk_and(guard, b))] +
                                        [x for (v, h), z in zip(params, cand) for x in (mk_le(ZERO, z), mk_lt(z, subst(h, dict(zip(pv, cand)))))]):
                return cand
        break
    return None


def unify_partial(idx, pv, k):
    """some parameters from atoms f(..p..) of idx matched with atoms of the same head in k: every choice"""
    opts = {}
    for a in {a for m in idx.t for a, e in m if a.kind in ("msum", "app") and (a.fv & set(pv))}:
        for b in {b for m in k.t for b, e in m if b.kind == a.kind}:
            for v, z in match_atom(a, b, pv):
                opts.setdefault(v, [])
                if z not in opts[v]:
                    opts[v].append(z)
    yield {}
    vs = list(opts)
    import itertools
    for i, ch in enumerate(itertools.product(*[opts[v] for v in vs])):
        if i >= 24:
            return
        if vs:
            yield dict(zip(vs, ch))


def by_coefficients(idx, rest, k):
    """values of the parameters in rest by dividing monomials of k by the parameters' coefficients, largest first"""
    cs = []
    for v in rest:
        co = lin_coeff(idx, v)
        if co is None or co.is_zero() or (co.fv & set(rest)):
            return None
        cs.append((v, co))
    d = k - subst(idx, {v: ZERO for v in rest})
    if d.fv & set(rest):
        return None
    deg = lambda co: max(sum(e for _, e in m) for m in co.t)
    sol = {}
    for v, co in sorted(cs, key=lambda x: -deg(x[1])):
        lead = max(co.t, key=lambda m: (sum(e for _, e in m), sorted(str(a) for a, _ in m)))
        need = dict(lead)
        z = ZERO
        for m, c in d.t.items():
            have = dict(m)
            if all(have.get(a, 0) >= e > 0 for a, e in need.items()):
                t = P(c / co.t[lead])
                for a, e in m:
                    t = t * P(a) ** (e - need.get(a, 0)) if e - need.get(a, 0) else t
                z = z + t
        sol[v] = z
        d = d - z * co
    return sol if d.is_zero() else None


def match_atom(a, b, pv):
    if a.kind == "app" and a.args[0] == b.args[0]:
        pairs = list(zip(a.args[1:], b.args[1:]))
    elif a.kind == "msum" and len(a.args[0]) == len(b.args[0]) and a.args[1] is b.args[1]:
        pairs = [(x[1], y[1]) for x, y in zip(a.args[0], b.args[0])]
    elif a.kind == "msum" and len(a.args[0]) == 1 and len(b.args[0]) == 1 and \
            subst(a.args[1], {bvar(a.args[0][0][0]): var("%B%")}) is subst(b.args[1], {bvar(b.args[0][0][0]): var("%B%")}):
        pairs = [(a.args[0][0][1], b.args[0][0][1])]
    else:
        return
    for x, y in pairs:
        for v in pv:
            if v in x.fv:
                co = lin_coeff(x, v)
                if co is not None and co.is_const() and abs(co.const()) == 1:
                    yield v, (y - subst(x, {v: ZERO})) * (1 / co.const())


def unify_index(idx, pv, k):
    """match atoms f(..p..) in idx with atoms of the same head in k"""
    sol = {}
    pvs = set(pv)
    for a in [a for m in idx.t for a, e in m if a.kind in ("msum", "app") and (a.fv & pvs)]:
        for m in k.t:
            for b, e in m:
                if b.kind == a.kind:
                    for v, z in match_atom(a, b, pv):
                        sol.setdefault(v, z)
    if not sol:
        return None
    if len(sol) < len(pv):                 # atoms whose body mentions parameters found so far
        for a in [a for m in subst(idx, sol).t for a, e in m if a.kind in ("msum", "app") and (a.fv & pvs)]:
            for m in k.t:
                for b, e in m:
                    if b.kind == a.kind:
                        for v, z in match_atom(a, b, pv):
                            sol.setdefault(v, z)
    rest = [v for v in pv if v not in sol]
    for v in rest:
        e = subst(idx, {w: s for w, s in sol.items()}) - k
        co = lin_coeff(e, v)
        if co is not None and co.is_const() and co.const() != 0:
            s = (P(v) - e * (1 / co.const()))
            if _norm_int_(s) and not (s.fv & pvs):
                sol[v] = s
    if len(sol) != len(pv):
        return None
    if (subst(idx, sol) - k).is_zero():
        return [sol[v] for v in pv]
    return None


from .terms import _norm_int as _norm_int_


# ---------------------------------------------------------------- generic transformers
class XSubst:
    """substitution of variables in values"""

    def __init__(self, mp):
        self.mp = mp

    def p(self, p):
        return subst(p, self.mp)

    def b(self, b):
        return subst(b, self.mp)

    def value(self, v, ctx):
        return map_value(v, self)

    def symarr(self, a):
        return SymArr(a.name, tuple(self.p(x) for x in a.args), a.et, a.prog)


def map_value(v, x):
    if isinstance(v, Poly):
        return x.p(v)
    if isinstance(v, B):
        return x.b(v)
    if isinstance(v, VecVal):
        return VecVal(x.p(v.len), map_arr(v.arr, x), v.et)
    if isinstance(v, StructVal):
        return StructVal(v.cls, {k: map_value(y, x) for k, y in v.f.items()})
    if isinstance(v, PtrVal):
        return PtrVal(map_path(v.path, x), x.p(v.off))
    if isinstance(v, RevIt):
        return RevIt(map_path(v.path, x), x.p(v.off))
    if isinstance(v, SpanVal):
        return SpanVal(map_path(v.path, x), x.p(v.off), x.p(v.len))
    return v


def map_path(path, x):
    if path is None:
        return None
    root, sels = path
    return (root, tuple((k, x.p(s) if k == "i" else s) for k, s in sels))


def map_arr(a, x):
    if isinstance(a, SymArr):
        return x.symarr(a)
    if isinstance(a, ConstArr):
        return ConstArr(map_value(a.val, x))
    if isinstance(a, ListArr):
        return ListArr([map_value(v, x) for v in a.vals])
    if isinstance(a, ResizeArr):
        return ResizeArr(map_arr(a.base, x), x.p(a.n), map_value(a.fill, x))
    if isinstance(a, IteArr):
        return IteArr(x.b(a.c), map_arr(a.a, x), map_arr(a.b, x))
    if isinstance(a, ShiftArr):
        return ShiftArr(map_arr(a.base, x), x.p(a.off))
    if isinstance(a, UpdArr):
        return UpdArr(map_arr(a.base, x), [(v, x.p(h)) for v, h in a.params], x.b(a.guard), x.p(a.idx),
                      map_value(a.val, x), a.mode)
    if isinstance(a, LamArr):
        return LamArr(a.fn, a.xs + (x,))
    if isinstance(a, SpecArr):
        if isinstance(x, XSubst) and not (set(x.mp) & a.frozen):
            return a
        return map_arr(a.base, x)
    raise Unsupported("array transform of %r" % (a,))


# ---------------------------------------------------------------- symbolic values of a type
def make_sym(t, name, args, prog):
    k = t[0]
    if k in ("double", "real"):
        return app(name, args, "R")
    if k == "int":
        return app(name, args, "I")
    if k == "bool":
        return bapp(name, args)
    if k == "vec":
        return VecVal(app(name + ".len", args, "I"), SymArr(name, args, t[1], prog), t[1])
    if k == "arr":
        return VecVal(P(t[2]), SymArr(name, args, t[1], prog), t[1])
    if k == "tuple":
        return StructVal("tuple", {str(i): make_sym(x, "%s.%d" % (name, i), args, prog) for i, x in enumerate(t[1])})
    if k == "map":
        return MapVal(name, args, t[2], prog)
    if k == "uptr":
        return make_sym(t[1], name, args, prog)
    if k == "struct":
        fl = prog.fields.get(t[1])
        if fl is None:
            return Opaque("symbolic value of type " + t[1])
        return StructVal(t[1], {n: make_sym(ntype(ty), name + "." + n, args, prog) for n, ty, _ in fl})
    return Opaque("symbolic value of type %r" % (t,))


def zero_of(t, prog):
    k = t[0]
    if k in ("double", "real", "int"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "vec":
        return VecVal(ZERO, ConstArr(zero_of(t[1], prog)), t[1])
    if k == "arr":
        return VecVal(P(t[2]), ConstArr(zero_of(t[1], prog)), t[1])
    if k == "tuple":
        return StructVal("tuple", {str(i): zero_of(x, prog) for i, x in enumerate(t[1])})
    if k == "uptr":
        return Opaque("null unique_ptr")
    if k == "span":
        return SpanVal(None, ZERO, ZERO)
    if k == "ptr":
        return PtrVal(None, ZERO)
    if k == "struct" and t[1] in prog.fields:
        return StructVal(t[1], {n: zero_of(ntype(ty), prog) for n, ty, _ in prog.fields[t[1]]})
    return Opaque("default value of type %r" % (t,))


def same_path(p, q):
    return p is q or (p is not None and q is not None and p[0] is q[0] and len(p[1]) == len(q[1]) and
                      all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) for a, b in zip(p[1], q[1])))


def ite_value(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    if isinstance(a, VecVal) and isinstance(b, VecVal):
        return VecVal(ite(c, a.len, b.len), ite_arr(c, a.arr, b.arr), a.et)
    if isinstance(a, StructVal) and isinstance(b, StructVal) and a.cls == b.cls:
        return StructVal(a.cls, {k: ite_value(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, PtrVal) and isinstance(b, PtrVal) and same_path(a.path, b.path):
        return PtrVal(a.path, ite(c, a.off, b.off))
    if isinstance(a, SpanVal) and isinstance(b, SpanVal) and same_path(a.path, b.path):
        return SpanVal(a.path, ite(c, a.off, b.off), ite(c, a.len, b.len))
    if isinstance(a, StrVal) and isinstance(b, StrVal):
        return a if a.s == b.s else Opaque("string choice")
    return Opaque("conditional value")


def chain(a):
    """[updates from newest to oldest], base"""
    out = []
    while isinstance(a, UpdArr):
        out.append(a)
        a = a.base
    return out, a


def ite_arr(c, a, b):
    if a is b:
        return a
    ua, _ = chain(a)
    ub, _ = chain(b)
    nodes_b = {id(b): 0}
    for i, u in enumerate(ub):
        nodes_b[id(u.base)] = i + 1
    # find the newest common ancestor
    cur, na = a, []
    while id(cur) not in nodes_b:
        if not isinstance(cur, UpdArr):
            return IteArr(c, a, b)
        na.append(cur)
        cur = cur.base
    nb = ub[:nodes_b[id(cur)]]
    res = cur
    if nb and na:
        # both sides write: guard each side; only safe if no value reads depend on order -> values are fixed terms
        pass
    for u in reversed(na):
        res = UpdArr(res, u.params, mk_and(c, u.guard), u.idx, u.val, u.mode)
    for u in reversed(nb):
        res = UpdArr(res, u.params, mk_and(mk_not(c), u.guard), u.idx, u.val, u.mode)
    return res
