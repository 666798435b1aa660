"""Symbolic execution of a Python function of /repo: the unchanged function body (only list comprehensions are turned
into calls, imports into contracts) is run by the Python interpreter over symbolic scalars and arrays of symbolic shape.
A branch on a symbolic condition is taken both ways by re-execution under the corresponding path condition."""
import ast
import builtins
from fractions import Fraction
from .session import *

I3 = 3


class Engine:
    def __init__(self, ctx, name):
        self.ctx0, self.name = ctx, name
        self.obls = []

    def run(self, f, limit=64):
        """every path of f(); yields (ctx, outcome)"""
        global CUR
        todo, n = [[]], 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > limit:
                raise Unsupported("too many paths")
            self.ctx, self.pre, self.pos, self.alts, self.generic = self.ctx0, pre, 0, [], 0
            CUR = self
            try:
                r = ("ok", f())
            except Unsupported:
                raise
            except Infeasible:
                continue
            except Exception as e:      # noqa: BLE001
                r = ("raise", e)
            for k in self.alts:
                todo.append(self.path[:k] + [False])
            yield self.ctx, r

    @property
    def path(self):
        return self.pre[:self.pos]

    def decide(self, c):
        if self.ctx.prove(c):
            return True
        if self.ctx.prove(mk_not(c)):
            return False
        if self.generic:
            raise Unsupported("branch on a symbolic condition inside a generic element")
        if self.pos == len(self.pre):
            self.alts.append(self.pos)
            self.pre = self.pre + [True]
        b = self.pre[self.pos]
        self.pos += 1
        self.ctx = self.ctx.assume(c if b else mk_not(c))
        if self.ctx.inconsistent():
            raise Infeasible()
        return b

    def oblige(self, what, ok, detail="", definite=False):
        self.obls.append((what, ok, detail, definite))

    def need(self, what, goal):
        ok = self.ctx.prove(goal) or self.ctx.prove(goal, True)
        self.oblige(what, ok, "cannot prove %s" % goal if not ok else "")


class Infeasible(Exception):
    pass


CUR = None


def T(x):
    """term of a Python value"""
    if isinstance(x, Num):
        return x.t
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return P(x)
    if isinstance(x, float):
        return P(Fraction(x).limit_denominator(10 ** 12) if x == x and abs(x) < 1e300 else bad("float %r" % x))
    if isinstance(x, Arr) and not x.shape:
        return x.fn(())
    bad("value %r" % (type(x).__name__,))


def bad(m):
    raise Unsupported("Python: " + m)


class Bool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CUR.decide(self.c)


class Num:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.decide(mk_not(mk_eq(self.t, ZERO)))

    def __hash__(self):
        bad("hash of a symbolic number")

    def __index__(self):
        bad("concrete index needed")
    __int__ = __float__ = __index__

    def __neg__(s): return Num(-s.t)
    def __pos__(s): return s
    def __eq__(s, o): return Bool(mk_eq(s.t, T(o)))
    def __ne__(s, o): return Bool(mk_not(mk_eq(s.t, T(o))))
    def __le__(s, o): return Bool(mk_le(s.t, T(o)))
    def __lt__(s, o): return Bool(mk_lt(s.t, T(o)))
    def __ge__(s, o): return Bool(mk_le(T(o), s.t))
    def __gt__(s, o): return Bool(mk_lt(T(o), s.t))


def _bin(name, f):
    def op(a, b):
        if isinstance(b, (Arr, list)) or isinstance(a, (Arr, list)):
            return elementwise(f, a, b)
        try:
            return Num(f(T(a), T(b)))
        except Unsupported:
            return NotImplemented
    for c in (Num,):
        setattr(c, "__%s__" % name, op)
        setattr(c, "__r%s__" % name, lambda a, b, op=op: op(b, a))


OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, truediv=lambda a, b: a * inv(b))


class Arr:
    """array of symbolic shape: shape = tuple of terms, fn(index tuple) -> term"""

    def __init__(self, shape, fn, parent=None, key=None):
        self.shape_t, self._fn, self.ver = tuple(shape), fn, 0
        self.parent, self.key, self.pver = parent, key, parent.ver if parent is not None else 0

    @property
    def fn(self):
        """the present contents; a view whose array was changed otherwise is out of reach"""
        p, v = self.parent, self.pver
        while p is not None:
            if p.ver != v:
                bad("view of an array that was modified")
            p, v = p.parent, p.pver
        return self._fn

    def put(self, fn):
        self.fn
        self._fn = fn
        self.ver += 1
        if self.parent is not None:
            if self.key is None:
                bad("write through a reshaped or transposed view")
            self.parent[self.key] = Arr(self.shape_t, fn)
            self.pver = self.parent.ver

    @property
    def shape(self):
        return tuple(unwrap(n) for n in self.shape_t)

    @property
    def ndim(self):
        return builtins.len(self.shape_t)

    @property
    def size(self):
        r = ONE
        for n in self.shape_t:
            r = r * n
        return unwrap(r)

    @property
    def T(self):
        f = self.fn
        return Arr(tuple(reversed(self.shape_t)), lambda ix: f(tuple(reversed(ix))), self)

    def transpose(self, *a):
        if a and a != (1, 0):
            bad("transpose with axes")
        return self.T

    def __iter__(self):
        n = const(self.shape_t[0])
        if n is None:
            bad("loop over an array of symbolic length")
        return iter([self[k] for k in builtins.range(n)])

    def __len__(self):
        bad("len of a symbolic array where a machine integer is needed")

    def copy(self): return Arr(self.shape_t, self.fn)
    tolist = copy
    def astype(self, *a, **k): return self.copy()

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        if self.ndim == 2:
            w = const(self.shape_t[1])
            if w is not None:
                f = self.fn
                return Arr((self.shape_t[0] * w,), lambda ix: f(split_const(ix[0], w)))
        bad("flatten of this shape")
    ravel = flatten

    def reshape(self, *shape):
        if builtins.len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        sh = [T(s) for s in shape]
        if self.ndim == 1 and builtins.len(sh) == 1:
            return self.copy()
        if builtins.len(sh) == 1:
            return self.flatten()
        flat = self.flatten()
        w = const(sh[1]) if builtins.len(sh) == 2 else None
        if w is None or w <= 0:
            bad("reshape to this shape")
        tot = flat.shape_t[0]
        rows = sh[0]
        if const(rows) == -1:
            CUR.need("reshape: size is a multiple of %d" % w, mk_eq(tot, exact_rows(tot, w) * w))
            rows = exact_rows(tot, w)
        else:
            CUR.need("reshape keeps the number of elements", mk_eq(rows * w, tot))
        f = flat.fn
        return Arr((rows, P(w)), lambda ix: f((ix[0] * w + ix[1],)), self)

    def sum(self, axis=None):
        return np_sum(self, axis)

    def mean(self, *a, **k): bad("mean")
    def dot(self, o): return matmul(self, o)
    def __matmul__(self, o): return matmul(self, o)

    def __neg__(self):
        f = self.fn
        return Arr(self.shape_t, lambda ix: -f(ix))

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if builtins.len(key) > self.ndim:
            if None in key or Ellipsis in key:
                bad("newaxis")
            bad("too many indices")
        key = key + (slice(None),) * (self.ndim - builtins.len(key))
        shape, maps = [], []
        nout = 0
        for k, n in zip(key, self.shape_t):
            if isinstance(k, slice):
                lo, hi = rng_of(k, n)
                shape.append(hi - lo)
                maps.append(("s", nout, lo))
                nout += 1
            elif isinstance(k, Arr):
                if k.ndim != 1 or builtins.sum(isinstance(q, Arr) for q in key) > 1:
                    bad("indexing by several arrays")
                p = fresh("p")
                CUR.oblige("array index within the array", CUR.ctx.assume(mk_le(ZERO, p), mk_lt(p, k.shape_t[0])).prove(
                    mk_and(mk_le(ZERO, k.fn((p,))), mk_lt(k.fn((p,)), n))))
                shape.append(k.shape_t[0])
                maps.append(("a", nout, k))
                nout += 1
            else:
                t = T(k)
                c = const(t)
                if c is not None and c < 0:
                    t = n + t
                CUR.need("index within the array", mk_and(mk_le(ZERO, t), mk_lt(t, n)))
                maps.append(("i", t))

        base = self.fn
        adv = any(m[0] == "a" for m in maps)
        maps = [(m[0], m[1], m[2].fn) if m[0] == "a" else m for m in maps]

        def fn(ix):
            out = []
            for m in maps:
                out.append(m[1] if m[0] == "i" else ix[m[1]] + m[2] if m[0] == "s" else m[2]((ix[m[1]],)))
            return base(tuple(out))
        if not shape:
            return Num(fn(()))
        return Arr(shape, fn) if adv else Arr(shape, fn, self, key)

    def __setitem__(self, key, val):
        if not isinstance(key, tuple):
            key = (key,)
        if builtins.len(key) == 1 and key[0] is Ellipsis:
            key = ()
        key = key + (slice(None),) * (self.ndim - builtins.len(key))
        conds, out, shape = [], [], []
        for k, n in zip(key, self.shape_t):
            if isinstance(k, slice):
                lo, hi = rng_of(k, n)
                conds.append((lo, hi))
                out.append(lo)
                shape.append(hi - lo)
            elif isinstance(k, Arr):
                bad("assignment through an index array")
            else:
                t = T(k)
                c = const(t)
                if c is not None and c < 0:
                    t = n + t
                CUR.need("index within the array", mk_and(mk_le(ZERO, t), mk_lt(t, n)))
                conds.append(t)
                out.append(None)
        old = self.fn
        if isinstance(val, (list, tuple)):
            val = asarray(val)
        if isinstance(val, Arr):
            vs = broadcast_to(val, shape, "assigned value")
        else:
            t = T(val)
            vs = lambda ix: t

        def fn(ix):
            cs, sub = [], []
            for x, c, o in zip(ix, conds, out):
                if o is None:
                    cs.append(mk_eq(x, c))
                else:
                    cs += [mk_le(c[0], x), mk_lt(x, c[1])]
                    sub.append(x - o)
            return ite(mk_and(*cs), vs(tuple(sub)), old(ix))
        self.put(fn)

    def __eq__(self, o): bad("comparison of arrays")
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = None

    def __bool__(self): bad("truth value of an array")


for _n, _f in OPS.items():
    _bin(_n, _f)
    setattr(Arr, "__%s__" % _n, lambda a, b, f=_f: elementwise(f, a, b))
    setattr(Arr, "__r%s__" % _n, lambda a, b, f=_f: elementwise(f, b, a))
    setattr(Arr, "__i%s__" % _n, lambda a, b, f=_f: inplace(f, a, b))
Num.__pow__ = lambda a, b: Num(ipow(a.t, b))
Arr.__pow__ = lambda a, b: (lambda f: Arr(a.shape_t, lambda ix: ipow(f(ix), b)))(a.fn)


def inplace(f, a, b):
    r = elementwise(f, a, b)
    if builtins.len(r.shape_t) != a.ndim:
        bad("in-place operation changes the shape")
    for n, m in zip(r.shape_t, a.shape_t):
        CUR.need("shapes agree", mk_eq(n, m))
    a.put(r.fn)
    return a


def ipow(t, b):
    if not isinstance(b, int) or b < 0 or b > 8:
        bad("power")
    r = ONE
    for _ in builtins.range(b):
        r = r * t
    return r


def const(t):
    t = P(t) if not isinstance(t, Poly) else t
    if not t.is_const():
        return None
    c = t.const()
    return int(c) if c == int(c) else None


def unwrap(t):
    c = const(t)
    return Num(t) if c is None else c


def exact_rows(tot, w):
    return tot * P(Fraction(1, w))


def split_const(ix, w):
    """ix = w*q + c with c a constant 0 <= c < w"""
    c0 = P(0)
    for c in builtins.range(w):
        q = (ix - c) * P(Fraction(1, w))
        if all(co.denominator == 1 for co in q.t.values()):
            return q, P(c)
    bad("flattened index of an unexpected form: %s" % ix)


def rng_of(k, n):
    if k.step is not None:
        bad("slice with a step")

    def end(v, dflt):
        if v is None:
            return dflt
        t = T(v)
        c = const(t)
        if c is not None and c < 0:
            t = n + t
        CUR.oblige("slice bound inside the array", CUR.ctx.prove(mk_and(mk_le(ZERO, t), mk_le(t, n))), "cannot place %s in 0..%s" % (t, n))
        return t
    lo, hi = end(k.start, ZERO), end(k.stop, n)
    CUR.need("slice not reversed", mk_le(lo, hi))
    return lo, hi


def broadcast_to(a, shape, what):
    k = builtins.len(shape) - a.ndim
    if k < 0:
        bad("shape of " + what)
    ones, f = [], a.fn
    for n, m in zip(a.shape_t, shape[k:]):
        if const(n) == 1 and const(m) != 1:
            ones.append(True)
        else:
            ones.append(False)
            CUR.need("shapes agree", mk_eq(n, m))
    return lambda ix: f(tuple(ZERO if o else x for o, x in zip(ones, ix[k:])))


def elementwise(f, a, b):
    a, b = [asarray(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim < b.ndim:
            fa, fb = broadcast_to(a, b.shape_t, "operand"), b.fn
            return Arr(b.shape_t, lambda ix: f(fa(ix), fb(ix)))
        shape = list(a.shape_t)
        k = a.ndim - b.ndim
        for q, m in enumerate(b.shape_t):
            if const(shape[k + q]) == 1:
                shape[k + q] = m
        fa, fb = broadcast_to(a, shape, "operand"), broadcast_to(b, shape, "operand")
        return Arr(shape, lambda ix: f(fa(ix), fb(ix)))
    if isinstance(a, Arr):
        t, fa = T(b), a.fn
        return Arr(a.shape_t, lambda ix: f(fa(ix), t))
    t, fb = T(a), b.fn
    return Arr(b.shape_t, lambda ix: f(t, fb(ix)))


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 2 and b.ndim == 2:
        CUR.need("matrix product: inner dimensions agree", mk_eq(a.shape_t[1], b.shape_t[0]))

        fa, fb = a.fn, b.fn

        def fn(ix):
            k = fresh("k")
            return mk_msum([(k, a.shape_t[1])], fa((ix[0], k)) * fb((k, ix[1])))
        return Arr((a.shape_t[0], b.shape_t[1]), fn)
    if a.ndim == 1 and b.ndim == 1:
        k = fresh("k")
        return Num(mk_msum([(k, a.shape_t[0])], a.fn((k,)) * b.fn((k,))))
    bad("matrix product of these shapes")


def np_sum(a, axis=None, **kw):
    if kw:
        bad("sum with options")
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if axis is not None and axis < 0:
        axis += a.ndim
    if axis is None:
        vs = [fresh("s") for _ in a.shape_t]
        return Num(sum_axes(list(zip(vs, a.shape_t)), a.fn(tuple(vs))))
    if a.ndim == 1:
        return np_sum(a)
    rest = [n for q, n in enumerate(a.shape_t) if q != axis]
    fa = a.fn

    def fn(ix):
        v = fresh("s")
        full = list(ix)
        full.insert(axis, v)
        return sum_axes([(v, a.shape_t[axis])], fa(tuple(full)))
    return Arr(rest, fn)


def sum_axes(bl, body):
    for v, n in bl:
        c = const(n)
        if c is not None and c <= 16:
            va = v.as_atom()
            tot = ZERO
            for k in builtins.range(c):
                tot = tot + subst(body, {va: P(k)})
            body = tot
        else:
            body = mk_msum([(v, n)], body)
    return body


def asarray(x, *a, **k):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        xs = [asarray(e) if isinstance(e, (list, tuple)) else e for e in x]
        if xs and all(isinstance(e, Arr) for e in xs):
            return stack(xs)
        ts = [T(e) for e in xs]

        def fn(ix):
            c = const(ix[0])
            if c is not None:
                return ts[c]
            r = ZERO
            for q, t in enumerate(ts):
                r = r + ind(mk_eq(ix[0], P(q))) * t
            return r
        return Arr((P(builtins.len(ts)),), fn)
    if isinstance(x, (Num, int, float)):
        return x
    bad("array of %s" % type(x).__name__)


def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    for x in xs[1:]:
        for n, m in zip(x.shape_t, xs[0].shape_t):
            CUR.need("stacked arrays have equal shapes", mk_eq(n, m))
    nd = xs[0].ndim
    ax = axis if axis >= 0 else nd + 1 + axis
    shape = list(xs[0].shape_t)
    shape.insert(ax, P(builtins.len(xs)))
    fs = [x.fn for x in xs]

    def fn(ix):
        k = ix[ax]
        rest = tuple(ix[:ax]) + tuple(ix[ax + 1:])
        c = const(k)
        if c is not None:
            return fs[c](rest)
        r = ZERO
        for q, x in enumerate(fs):
            r = r + ind(mk_eq(k, P(q))) * x(rest)
        return r
    return Arr(shape, fn)


def shape_of(s):
    return [T(x) for x in (s if isinstance(s, (tuple, list)) else (s,))]


class _At:
    def __init__(self, sign):
        self.sign = sign

    def at(self, a, idx, val):
        if not isinstance(idx, Arr) or idx.ndim != 1:
            bad("ufunc.at with this index")
        n = idx.shape_t[0]
        old = a.fn
        v = asarray(val) if not isinstance(val, (int, float, Num)) else None
        if v is not None and v.ndim == a.ndim:
            CUR.need("ufunc.at: shapes agree", mk_eq(v.shape_t[0], n))
            vf = v.fn
        elif v is None:
            t = T(val)
            vf = lambda ix: t
        else:
            bad("ufunc.at with these shapes")
        p0 = fresh("p")
        CUR.oblige("array index within the array", CUR.ctx.assume(mk_le(ZERO, p0), mk_lt(p0, n)).prove(
            mk_and(mk_le(ZERO, idx.fn((p0,))), mk_lt(idx.fn((p0,)), a.shape_t[0]))))
        sg, xf = self.sign, idx.fn

        def fn(ix):
            p = fresh("p")
            return old(ix) + sg * mk_msum([(p, n)], ind(mk_eq(xf((p,)), ix[0])) * vf((p,) + tuple(ix[1:])))
        a.put(fn)

    def __call__(self, a, b):
        return elementwise(OPS["add"] if self.sign == 1 else OPS["sub"], a, b)


class Numpy:
    float64 = float32 = int32 = int64 = "dtype"
    asarray = array = ascontiguousarray = asanyarray = staticmethod(asarray)
    add, subtract = _At(1), _At(-1)
    newaxis = None

    def __getattr__(self, n):
        bad("numpy.%s has no contract" % n)
    sum = staticmethod(np_sum)
    matmul = dot = staticmethod(matmul)
    stack = staticmethod(stack)
    vstack = staticmethod(lambda xs: stack(xs, 0))

    @staticmethod
    def column_stack(xs): return stack(xs, 1)

    @staticmethod
    def transpose(a): return asarray(a).T

    @staticmethod
    def ravel(a): return asarray(a).flatten()

    @staticmethod
    def reshape(a, s): return asarray(a).reshape(s)

    @staticmethod
    def negative(a): return -a

    @staticmethod
    def zeros(s, *a, **k): return Arr(shape_of(s), lambda ix: ZERO)

    @staticmethod
    def ones(s, *a, **k): return Arr(shape_of(s), lambda ix: ONE)

    @staticmethod
    def zeros_like(x, *a, **k): return Arr(x.shape_t, lambda ix: ZERO)

    @staticmethod
    def empty(s, *a, **k):
        nm = "uninitialised!%d" % next(_ctr)
        return Arr(shape_of(s), lambda ix: app(nm, ix))

    @staticmethod
    def empty_like(x, *a, **k): return Numpy.empty(x.shape)

    @staticmethod
    def arange(n, *a):
        if a:
            bad("arange with start")
        return Arr((T(n),), lambda ix: ix[0])

    @staticmethod
    def bincount(x, weights=None, minlength=0):
        x = asarray(x)
        if x.ndim != 1:
            bad("bincount of a matrix")
        n = x.shape_t[0]
        if weights is not None:
            weights = asarray(weights)
            if weights.ndim != 1:
                bad("bincount weights")
            CUR.need("bincount: one weight per entry", mk_eq(weights.shape_t[0], n))
        p0 = fresh("p")
        c = CUR.ctx.assume(mk_le(ZERO, p0), mk_lt(p0, n))
        CUR.oblige("bincount: entries are not negative", c.prove(mk_le(ZERO, x.fn((p0,)))))
        m = T(minlength)
        size = m if c.prove(mk_lt(x.fn((p0,)), m)) else app("bincount_size!%d" % next(_ctr), (), "I")

        xf, wf = x.fn, weights.fn if weights is not None else lambda ix: ONE

        def fn(ix):
            p = fresh("p")
            return mk_msum([(p, n)], ind(mk_eq(xf((p,)), ix[0])) * wf((p,)))
        return Arr((size,), fn)

    @staticmethod
    def einsum(spec, *ops):
        ops = [asarray(o) for o in ops]
        if "->" not in spec or "." in spec:
            bad("einsum " + spec)
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        size = {}
        for s, o in zip(ins, ops):
            for ch, n in zip(s, o.shape_t):
                if ch in size:
                    CUR.need("einsum: dimensions agree", mk_eq(size[ch], n))
                size.setdefault(ch, n)

        fs = [o.fn for o in ops]

        def fn(ix):
            env = dict(zip(out, ix))
            bl = []
            for ch in size:
                if ch not in env:
                    env[ch] = fresh("e")
                    bl.append((env[ch], size[ch]))
            body = ONE
            for s, f in zip(ins, fs):
                body = body * f(tuple(env[ch] for ch in s))
            return sum_axes(bl, body)
        return Arr([size[ch] for ch in out], fn) if out else Num(fn(()))


import itertools
_ctr = itertools.count()


class SymRange:
    def __init__(self, n):
        self.n = n


def s_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        return Numpy.arange(a[0])
    if builtins.len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
        return Numpy.arange(a[1])
    bad("range")


def s_len(x):
    if isinstance(x, Arr):
        return unwrap(x.shape_t[0])
    if hasattr(x, "sym_len"):
        return unwrap(x.sym_len())
    return builtins.len(x)


def s_comp(f, it):
    if isinstance(it, Arr):
        e, itf = CUR, it.fn

        def fn(ix):
            old, e.ctx, e.generic = e.ctx, e.ctx.assume(mk_le(ZERO, ix[0]), mk_lt(ix[0], it.shape_t[0])), e.generic + 1
            try:
                row = itf(ix) if it.ndim == 1 else None
                if row is None:
                    bad("comprehension over rows")
                return T(f(Num(row)))
            finally:
                e.ctx, e.generic = old, e.generic - 1
        fn((fresh("g"),))       # obligations of the generic element
        return Arr((it.shape_t[0],), fn)
    if isinstance(it, (list, tuple, builtins.range, dict, str)):
        return [f(x) for x in it]
    bad("comprehension over %s" % type(it).__name__)


def s_sum(x, start=0):
    if isinstance(x, Arr):
        return np_sum(x) + start
    return builtins.sum(x, start)


def s_list(x=()):
    return x.copy() if isinstance(x, Arr) else builtins.list(x)


def s_int(x):
    return x if isinstance(x, Num) else builtins.int(x)


def s_float(x):
    return x if isinstance(x, Num) else builtins.float(x)


class Comp(ast.NodeTransformer):
    """[e for x in it]  ->  comp__(lambda x: e, it);   imports are bound to contracts instead"""

    def __init__(self):
        self.imports = []

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if builtins.len(g) != 1 or g[0].ifs or not isinstance(g[0].target, ast.Name):
            return n
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
        return ast.copy_location(ast.Call(func=ast.Name(id="comp__", ctx=ast.Load()), args=[lam, g[0].iter], keywords=[]), n)
    visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.imports.append((a.name, None, a.asname or a.name.split(".")[0]))
        return ast.copy_location(ast.Pass(), n)

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.imports.append(("." * n.level + (n.module or ""), a.name, a.asname or a.name))
        return ast.copy_location(ast.Pass(), n)


class NoContract:
    def __init__(self, what):
        object.__setattr__(self, "_w", what)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        bad("%s.%s has no contract" % (self._w, n))

    def __call__(self, *a, **k):
        bad("%s has no contract" % self._w)


def load(path, contracts):
    """namespace of the module with its imports bound to contracts[(module, name)]"""
    src = open(path).read()
    tr = Comp()
    tree = tr.visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    ns = {"__name__": "verified", "comp__": s_comp, "len": s_len, "range": s_range, "sum": s_sum, "list": s_list, "int": s_int, "float": s_float}
    for mod, name, as_ in tr.imports:
        v = contracts.get((mod, name))
        if v is None and name is not None:
            v = contracts.get(("*", name))
        if as_ in ns and not isinstance(ns[as_], NoContract) and v is None:
            continue
        ns[as_] = v if v is not None else NoContract("%s.%s" % (mod, name) if name else mod)
    exec(compile(tree, path, "exec"), ns)
    return ns
