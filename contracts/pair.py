"""Contracts of the LAMMPS pair style (C21)."""
import os
from vc import cppast
from vc.session import *
from vc.invariants import *
from vc.stdmodel import sqrt_
from vc.values import ResizeArr, IteArr

DBL = ("double",)
INT = ("int", 32, True)
CLS = "LAMMPS_NS::PairSymmetrixMACE"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = ("-I" + HERE + "/replay/lammps", "-I" + cppast.REPO + "/pair_symmetrix")


class PairStyle:
    """a generic object of the pair style on one rank"""

    def __init__(self, S):
        self.S = S
        self.prog = prog = S.prog(cppast.REPO + "/pair_symmetrix/pair_symmetrix_mace.cpp", extra=EXTRA)
        self.ex = Executor(prog)
        self.nLM, self.nc = var("num_LM"), var("nc")
        self.w = self.nLM * self.nc
        self.nall = var("nall")
        self.ctx = Ctx([mk_le(ONE, self.nLM), mk_le(ONE, self.nc), mk_le(ZERO, self.nall)])

    def start(self, ctx, **over):
        ex, prog = self.ex, self.prog
        st = State({}, ctx)
        st.throws = []
        f = dict(make_sym(("struct", CLS), "P", (), prog).f)
        m = make_sym(("struct", "MACE"), "M", (), prog)
        m = m.with_("num_LM", self.nLM).with_("num_channels", self.nc)
        f["mace"] = m
        for k in ("H1", "H1_adj"):
            f[k] = VecVal(self.nall * self.w, f[k].arr, DBL)
        f.update(over)
        self.f0 = f
        self.root = ex.new_root("this", StructVal(CLS, f), st, ("struct", CLS))
        return st

    def buf(self, st, name, t, n):
        b = make_sym(("vec", t), name, (), self.prog)
        b = VecVal(n, b.arr, t)
        r = self.ex.new_root(name, b, st, ("vec", t))
        return r, PtrVal((r, ()), ZERO), b

    def call(self, st, name, args):
        ex = self.ex
        fn = ex.find_function(CLS + "::" + name)
        r = ex.call_def(fn, (self.root, ()), [("val", a) for a in args], st)
        for _, c, _ in st.throws:
            self.S.holds("%s does not throw" % name, c, FALSE, fn=CLS + "::" + name)
        st.throws = []
        return r

    def frame(self, st, name, written):
        now = st.mem[self.root]
        for k, a in now.f.items():
            if k not in written:
                b = self.f0[k]
                same = a is b or (isinstance(a, VecVal) and a.arr is b.arr and a.len is b.len)
                self.S.fact("%s leaves %s unchanged" % (name, k), same, fn=CLS + "::" + name, kind="frame", definite=False)


def comm(S):
    m = PairStyle(S)
    n, first, w = var("n"), var("first"), m.w
    base = m.ctx.assume(mk_le(ZERO, n), mk_le(ZERO, first), mk_le(first + n, m.nall))
    lst = lambda i: app("list", (i,), "I")
    base.axioms.add("list", lambda *a: [mk_le(ZERO, app("list", a, "I")), mk_lt(app("list", a, "I"), m.nall)] if a else [])
    S.vacuity("communication", base.assume(mk_le(ONE, n)))
    i, k, p = var("i"), var("k"), var("p")
    for q, arr in (("forward", "H1"), ("reverse", "H1_adj")):
        name = "pack_%s_comm" % q
        fn = CLS + "::" + name
        st = m.start(base)
        lr, lp, _ = m.buf(st, "list", INT, n)
        br, bp, b0 = m.buf(st, "buf", DBL, n * w)
        r = m.call(st, name, [n, lp, bp, ZERO, PtrVal(None, ZERO)] if q == "forward" else [n, first, bp])
        c = st.ctx.assume(mk_le(ZERO, i), mk_lt(i, n), mk_le(ZERO, k), mk_lt(k, w))
        src = lst(i) if q == "forward" else first + i
        S.eq("%s returns the number of values packed" % name, st.ctx, r, n * w, fn=fn)
        S.eq("%s: entry (i,k) of the message is entry k of the i-th atom" % name, c, st.mem[br].arr.read(i * w + k, c), app("P." + arr, (src * w + k,)), fn=fn)
        m.frame(st, name, ())
        S.take(m.ex)
        name = "unpack_%s_comm" % q
        fn = CLS + "::" + name
        st = m.start(base)
        lr, lp, _ = m.buf(st, "list", INT, n)
        br, bp, b0 = m.buf(st, "buf", DBL, n * w)
        m.call(st, name, [n, first, bp] if q == "forward" else [n, lp, bp])
        new = st.mem[m.root].f[arr]
        S.eq("%s keeps the size" % name, st.ctx, new.len, m.nall * w, fn=fn)
        if q == "forward":
            c = st.ctx.assume(mk_le(ZERO, i), mk_lt(i, n), mk_le(ZERO, k), mk_lt(k, w))
            S.eq("%s: the i-th ghost receives message i" % name, c, new.arr.read((first + i) * w + k, c), app("buf", (i * w + k,)), fn=fn)
            for what, lo, hi in (("before", ZERO, first), ("after", first + n, m.nall)):
                c = st.ctx.assume(mk_le(lo, p), mk_lt(p, hi), mk_le(ZERO, k), mk_lt(k, w))
                S.eq("%s: atoms %s the range are unchanged" % (name, what), c, new.arr.read(p * w + k, c), app("P." + arr, (p * w + k,)), fn=fn)
        else:
            c = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, m.nall), mk_le(ZERO, k), mk_lt(k, w))
            t = fresh("t")
            S.eq("%s: every atom gains the sum of the messages for it" % name, c, new.arr.read(p * w + k, c),
                 app("P." + arr, (p * w + k,)) + mk_msum([(t, n)], ind(mk_eq(lst(t), p)) * app("buf", (t * w + k,))), fn=fn)
        m.frame(st, name, (arr,))
        S.eq("%s leaves the message unchanged" % name, st.ctx, st.mem[br].arr.read(p, st.ctx), app("buf", (p,)), fn=fn, kind="frame")
        S.take(m.ex)


NEIGHMASK = 0x1FFFFFFF
ROW = ("arr", DBL, 3)


class World:
    """one rank of LAMMPS: atoms, ghosts, a full neighbour list; every quantity arbitrary"""

    def __init__(self, S, m):
        self.S, self.m = S, m
        self.N, self.nall, self.ntypes = var("nlocal"), var("nall"), var("ntypes")
        self.mask = P(NEIGHMASK)
        ctx = Ctx([mk_le(ONE, m.nLM), mk_le(ONE, m.nc), mk_le(ZERO, self.N), mk_le(self.N, self.nall), mk_le(ONE, self.ntypes)])
        ctx.axioms.add("land", lambda *a: [mk_le(ZERO, app("land", a, "I")), mk_lt(app("land", a, "I"), self.nall)])
        ctx.axioms.add("numneigh", lambda *a: [mk_le(ZERO, app("numneigh", a, "I"))] if a else [])
        ctx.axioms.add("type", lambda *a: [mk_le(ONE, app("type", a, "I")), mk_le(app("type", a, "I"), self.ntypes)] if a else [])
        ctx.axioms.add("cut.neigh_j", lambda *a: [mk_le(ZERO, app("cut.neigh_j", a, "I")), mk_lt(app("cut.neigh_j", a, "I"), self.nall)])
        ctx.axioms.add("map", lambda *a: [mk_le(ZERO, app("map", a, "I")), mk_lt(app("map", a, "I"), self.N)])
        self.ctx = ctx

    x = lambda self, i, c: app("x", (i, c))
    nn = lambda self, i: app("numneigh", (i,), "I")
    nbr = lambda self, i, b: app("land", (app("firstneigh", (i, b), "I"), self.mask), "I")
    d = lambda self, i, b, c: self.x(self.nbr(i, b), c) - self.x(i, c)
    r2 = lambda self, i, b: sum((self.d(i, b, P(c)) * self.d(i, b, P(c)) for c in range(3)), ZERO)
    near = lambda self, i, b: mk_lt(self.r2(i, b), app("M.r_cut", ()) * app("M.r_cut", ()))

    def start(self):
        m, prog = self.m, self.m.prog
        sym = lambda t, n: make_sym(t, n, (), prog)
        st = m.start(self.ctx)
        f = m.f0
        f["mace_types"] = VecVal(self.ntypes, f["mace_types"].arr, INT)
        f["ii_from_i"] = VecVal(self.nall, sym(("vec", INT), "P.ii_from_i").arr, INT)
        for k in ("eng_vdwl",):
            f[k] = app("eng0", ())
        f["virial"] = VecVal(P(6), sym(("vec", DBL), "virial0").arr, DBL)
        for k in ("eflag_global", "eflag_atom", "vflag_global", "vflag_atom"):
            f[k] = app("old_" + k, (), "I")
        vec = lambda name, t, n: VecVal(n, SymArr(name, (), t, prog), t)
        eatom = m.ex.new_root("eatom", vec("eatom0", DBL, self.nall), st, ("vec", DBL))
        self.eatom = eatom
        f["eatom"] = PtrVal((eatom, ()), ZERO)
        root = lambda name, v, t: PtrVal((m.ex.new_root(name, v, st, ("vec", t)), ()), ZERO)
        self.x_ = root("x", vec("x", ROW, self.nall), ROW)
        self.flat = m.ex.new_root("forces", vec("f0", DBL, 3 * self.nall), st, ("vec", DBL))      # LAMMPS' arrays are contiguous
        self.f_ = root("f", VecVal(self.nall, LamArr(lambda k: PtrVal((self.flat, ()), 3 * k)), ("ptr", DBL)), ("ptr", DBL))
        atom = dict(nlocal=self.N, nghost=self.nall - self.N, ntypes=self.ntypes, x=self.x_, f=self.f_,
                    tag=root("tag", vec("tag", INT, self.nall), INT), type=root("type", vec("type", INT, self.nall), INT))
        fn = VecVal(self.nall, LamArr(lambda k: VecVal(self.nn(k), SymArr("firstneigh", (k,), INT, prog), INT)), ("vec", INT))
        lst = dict(inum=self.N, gnum=self.nall - self.N, ilist=root("ilist", VecVal(self.nall, LamArr(lambda k: k), INT), INT),
                   numneigh=root("numneigh", vec("numneigh", INT, self.nall), INT),
                   firstneigh=PtrVal((m.ex.new_root("firstneigh", fn, st, ("vec", ("vec", INT))), ()), ZERO))
        A, L = "LAMMPS_NS::Atom", "LAMMPS_NS::NeighList"
        f["atom"] = PtrVal((m.ex.new_root("atom", StructVal(A, atom), st, ("struct", A)), ()), None)
        f["list"] = PtrVal((m.ex.new_root("list", StructVal(L, lst), st, ("struct", L)), ()), None)
        for k, c in (("comm", "Comm"), ("error", "Error")):
            q = "LAMMPS_NS::" + c
            f[k] = PtrVal((m.ex.new_root(k, StructVal(q, {}), st, ("struct", q)), ()), None)
        st.mem[m.root] = StructVal(CLS, f)
        return st


def content(ex, st, a):
    """(length, read function) of an array argument"""
    v = a[1] if a[0] == "val" else ex.read_path(a[1], st)
    if isinstance(v, SpanVal):
        base = ex.read_path(v.path, st)
        return v.len, lambda k, c: base.arr.read(v.off + k, c)
    if isinstance(v, VecVal):
        return v.len, lambda k, c: v.arr.read(k, c)
    raise Unsupported("array argument %r" % type(v))


def scalar(ex, st, a):
    return ex.num(a[1] if a[0] == "val" else ex.read_path(a[1], st))


class Mode:
    """one compute mode on one rank.  The code before the first call of the evaluator builds its arguments; from there on the
    arrays placed by counting are arbitrary, and the rest of the function is checked against that."""

    def __init__(self, S, name):
        self.S, self.name, self.fn = S, name, CLS + "::" + name
        self.m = PairStyle(S)
        self.w = World(S, self.m)
        self.ex = ex = self.m.ex
        for q in ("", "LAMMPS_NS::"):
            ex.contracts[q + "Pair::ev_init"] = self.ev_init
            ex.contracts[q + "Atom::map"] = lambda ex_, st, this, args: app("map", (scalar(ex_, st, args[0]),), "I")
        self.log = []
        self.tag = ""

    def ev_init(self, ex, st, this, args):
        v = st.mem[self.m.root]
        for k in ("eflag_global", "eflag_atom", "vflag_global", "vflag_atom"):
            v = v.with_(k, app(k, (), "I") if k != "vflag_atom" else ZERO)
        st.mem[self.m.root] = v

    def decl(self, q):
        ds = [d for d in self.ex.prog.decls.values() if d.get("_qual") == q]
        if not ds:
            raise Unsupported("%s is not declared" % q)
        return ds[0]

    # ---- the neighbours within the cutoff, in order
    node = lambda self, a: a
    owner = lambda self, j: app("map", (app("tag", (j,), "I"),), "I")     # the atom that receives the force of a pair ending at j
    row = lambda self, j: self.owner(j)                                     # its place among the nodes

    def cases(self, ctx, a):
        yield ctx, self.node(a), ""

    def count(self, i, hi=None):
        b = fresh("b")
        return mk_msum([(b, self.w.nn(i) if hi is None else hi)], ind(self.w.near(i, b)))

    def pairs_before(self, a):
        t = fresh("t")
        return mk_msum([(t, a)], self.count(self.node(t)))

    def position(self, a, b):
        """place of the b-th listed neighbour of node a among all neighbours within the cutoff"""
        return self.pairs_before(a) + self.count(self.node(a), b)

    # ---- part 1: what the evaluator is given
    def role(self, path, nm, M):
        """the array at this place is, for every node or pair, the model's input nm"""
        S, w = self.S, self.w
        if (path, nm) in self.checked:
            return
        self.checked.add((path, nm))
        v, cx = self.snap.get(path) or (self.ex.read_path(path, self.at_call), self.at_call.ctx)
        st = State({}, cx)
        if not isinstance(v, VecVal):
            raise Unsupported("argument %s" % nm)
        a, b = var("a"), var("b")
        ctx = st.ctx.assume(mk_le(ZERO, a), mk_lt(a, M))
        i = self.node(a)
        j = w.nbr(i, b)
        typ = lambda i: app("P.mace_types", (app("type", (i,), "I") - 1,), "I")
        if nm in ("node_types", "num_neigh", "node_i"):
            S.eq("%s has one entry per node%s" % (nm, self.tag), st.ctx, v.len, M, fn=self.fn)
            for c, i, what in self.cases(ctx, a):
                want = {"node_types": typ(i), "num_neigh": self.count(i), "node_i": i}[nm]
                S.eq("%s: entry of node a%s%s" % (nm, what, self.tag), c, v.arr.read(a, c), want, fn=self.fn)
            return
        q, want = {"neigh_indices": (1, [self.row(j)]), "neigh_j": (1, [self.owner(j)]), "neigh_types": (1, [typ(j)]),
                   "xyz": (3, [w.d(i, b, P(c)) for c in range(3)]), "r": (1, [sqrt_(w.r2(i, b))])}[nm]
        near = ctx.assume(mk_le(ZERO, b), mk_lt(b, w.nn(i))).assume(w.near(i, b))
        pos = self.position(a, b)
        S.eq("%s has one entry per neighbour within the cutoff%s" % (nm, self.tag), st.ctx, v.len, q * self.pairs_before(M), fn=self.fn)
        for c, x in enumerate(want):
            S.eq("%s: entry %d of the b-th neighbour of node a%s" % (nm, c, self.tag), near, v.arr.read(q * pos + c, near), x, fn=self.fn)

    def hook(self, st):
        """after a loop: arrays whose cells were placed by counting (or marked) are arbitrary from here on; what they hold is checked"""
        def new(path, x, nm):
            self.snap[path] = (x, st.ctx)
            self.made(nm, x, st)
            return VecVal(x.len, SymArr("cut." + nm, (), x.et, self.m.prog), x.et)
        if self.post is not None:
            return
        for r, v in list(st.mem.items()):
            if r is self.m.root:
                for k, x in v.f.items():
                    if isinstance(x, VecVal) and k != "virial" and counted(x.arr):
                        v = v.with_(k, new((r, (("f", k),)), x, k))
                st.mem[r] = v
            elif isinstance(v, VecVal) and r not in self.start_mem and counted(v.arr):
                st.mem[r] = new((r, ()), v, r.name)

    def made(self, nm, x, st):
        pass

    def cut(self, st):
        """first call of the evaluator"""
        if self.post is None:
            self.post = dict(st.mem)
            self.at_call = st.copy()
            self.at_call.mem = self.post
            self.role((self.m.root, (("f", "neigh_j"),)), "neigh_j", self.M)

    def given(self, st, name, args, nodes, names=None):
        """arguments of an evaluator function"""
        ex = self.ex
        flags = {}
        for nm, a in zip(names or [p.get("name") for p in ex.params(self.decl(name))], args):
            if nm == "num_nodes":
                ex.oblige("precondition", mk_eq(scalar(ex, st, a), nodes), "%s is given the number of nodes" % name, st)
            elif nm in ("node_types", "num_neigh", "neigh_types", "neigh_indices", "xyz", "r"):
                v = a[1] if a[0] == "val" else None
                path = v.path if isinstance(v, SpanVal) else a[1] if a[0] == "path" else None
                if path is None:
                    raise Unsupported("argument %s of %s" % (nm, name))
                now = ex.read_path(path, st)
                was = self.post.get(path[0])
                for kind, k in path[1]:
                    was = was.f[k] if kind == "f" and isinstance(was, StructVal) else None
                self.S.fact("%s given to %s is the one prepared%s" % (nm, name, self.tag), isinstance(now, VecVal) and isinstance(was, VecVal) and now.arr is was.arr and
                            (not isinstance(v, SpanVal) or (v.off.is_zero() and (v.len - now.len).is_zero())), fn=self.fn, kind="precondition", definite=False)
                self.role(path, self.alias(name, nm), self.M)
            else:
                flags[nm] = a[1] if a[0] == "val" else ex.read_path(a[1], st)
        return flags

    alias = lambda self, name, nm: nm

    def evaluate(self, ex, st, this, args):
        self.cut(st)
        self.given(st, "MACE::compute_node_energies_forces", args, self.w.N)
        v = ex.read_path(this, st)
        v = v.with_("node_energies", VecVal(self.w.N, SymArr("EN", (), DBL, self.m.prog), DBL))
        v = v.with_("node_forces", VecVal(3 * self.pairs_before(self.M), SymArr("FO", (), DBL, self.m.prog), DBL))
        ex.write_path(this, v, st)
        return None

    def run(self):
        S, m, w, ex = self.S, self.m, self.w, self.ex
        self.M = w.N
        S.vacuity("one rank", w.ctx.assume(mk_le(P(2), w.N)))
        ex.contracts["MACE::compute_node_energies_forces"] = self.evaluate
        st = self.begin()
        m.call(st, self.name, [var("eflag"), var("vflag")])
        self.results(st)
        S.take(ex)

    def begin(self, **mace):
        st = self.w.start()
        v = st.mem[self.m.root]
        x = v.f["mace"]
        for k, y in mace.items():
            x = x.with_(k, y)
        st.mem[self.m.root] = v.with_("mace", x)
        self.start_mem = dict(st.mem)
        self.snap, self.post, self.checked = {}, None, set()
        self.ex.after_loop = self.hook
        return st

    # ---- part 3: what is added to LAMMPS' arrays
    def results(self, st):
        S, m, w, ex, M = self.S, self.m, self.w, self.ex, self.M
        f = st.mem[m.root].f
        fn, tag = self.fn, self.tag
        t, p, jj = fresh("t"), var("p"), fresh("jj")
        en, fo = f["mace"].f["node_energies"], f["mace"].f["node_forces"]
        EN = lambda k: ex.num(en.arr.read(k, st.ctx))
        FO = lambda k: ex.num(fo.arr.read(k, st.ctx))
        for flag in (ZERO, ONE):
            c = st.ctx.assume(mk_eq(app("eflag_global", (), "I"), flag))
            S.eq("energy%s%s" % (" unchanged when not asked for" if flag is ZERO else ": sum over the owned atoms", tag), c, f["eng_vdwl"],
                 app("eng0", ()) + (mk_msum([(t, w.N)], EN(t)) if flag is ONE else ZERO), fn=fn)
            c = st.ctx.assume(mk_eq(app("eflag_atom", (), "I"), flag), mk_le(ZERO, p), mk_lt(p, w.N))
            S.eq("per-atom energy%s%s" % (" unchanged when not asked for" if flag is ZERO else " of every owned atom", tag), c,
                 st.mem[w.eatom].arr.read(p, c), EN(p) if flag is ONE else app("eatom0", (p,)), fn=fn)
        pos = lambda t, jj: self.pairs_before(t) + jj
        NJ = lambda k: app("cut.neigh_j", (k,), "I")
        R = lambda k, c: app("cut.xyz", (3 * k + c,))
        pairs = lambda body: mk_msum([(t, M), (jj, self.count(self.node(t)))], body(pos(t, jj)))
        c = st.ctx.assume(mk_le(ZERO, p), mk_lt(p, w.nall))
        for k in range(3):
            got = st.mem[w.flat].arr.read(3 * p + k, c)
            want = app("f0", (3 * p + k,)) - pairs(lambda q: ind(mk_eq(self.node(t), p)) * FO(3 * q + k)) + pairs(lambda q: ind(mk_eq(NJ(q), p)) * FO(3 * q + k))
            S.eq("force component %d: minus the forces of the pairs starting at the atom, plus those of the pairs ending there%s" % (k, tag), c, got, want, fn=fn)
        half = P(Fraction(1, 2))
        for flag in (ZERO, ONE):
            c = st.ctx.assume(mk_eq(app("vflag_global", (), "I"), flag))
            for k, (x, y) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
                want = app("virial0", (P(k),))
                if flag is ONE:
                    want = want + pairs(lambda q: half * (R(q, x) * FO(3 * q + y) + R(q, y) * FO(3 * q + x)))
                S.eq("virial component %d%s%s" % (k, "" if flag is ONE else " unchanged when not asked for", tag), c, f["virial"].arr.read(P(k), c), want, fn=fn)
        for r, v in self.start_mem.items():
            if r not in (m.root, w.flat, w.eatom):
                v2 = st.mem[r]
                S.fact("LAMMPS' %s is unchanged%s" % (r.name, tag), v2 is v or (isinstance(v, VecVal) and v2.arr is v.arr), fn=fn, kind="frame", definite=False)


class Messages(Mode):
    """stages run one by one, first-layer features and their adjoints exchanged between ranks"""
    owner = lambda self, j: j
    row = lambda self, j: j

    def contracts(self):
        from . import mace_adj
        self.adj = mace_adj
        ex = self.ex
        for name in mace_adj.ACCESS:
            ex.contracts["MACE::" + name] = self.stage(name)
        ex.contracts["ZBL::compute_ZBL"] = self.zbl
        for q in ("", "LAMMPS_NS::"):
            ex.contracts[q + "Comm::forward_comm"] = self.exchange("forward_comm", "H1")
            ex.contracts[q + "Comm::reverse_comm"] = self.exchange("reverse_comm", "H1_adj")

    def model(self, st):
        return st.mem[self.m.root].f["mace"]

    def set_model(self, st, v):
        st.mem[self.m.root] = st.mem[self.m.root].with_("mace", v)

    def nodes(self, name):
        return self.w.N

    def settle(self, st):
        """a copy of exchanged data made cell by cell is the exchanged data"""
        v = self.model(st)
        for k, x in self.exchanged.items():
            y = v.f[k]
            if y.arr is not x.arr and isinstance(y, VecVal) and not (isinstance(y.arr, SymArr)):
                q = fresh("q")
                c = st.ctx.assume(mk_le(ZERO, q), mk_lt(q, x.len))
                if prove_eq(c, y.arr.read(q, c), x.arr.read(q, c)) and prove_eq(st.ctx, y.len, x.len):
                    v = v.with_(k, x)
        self.set_model(st, v)

    def stage(self, name):
        def con(ex, st, this, args):
            if this != (self.m.root, (("f", "mace"),)):
                raise Unsupported("evaluator of another object")
            self.cut(st)
            self.settle(st)
            flags = self.given(st, "MACE::" + name, args, self.nodes(name))
            v = self.model(st)
            before = dict(v.f)
            for k in self.adj.ACCESS[name][1]:
                old = v.f[k]
                n = self.nodes(name) * self.m.w if k == "H1" else v.f["H1"].len if k == "H1_adj" else old.len if k.startswith("node_") else app("%s.%s.len" % (name, k), (), "I")
                v = v.with_(k, VecVal(n, SymArr("%s.%s#%d" % (name, k, len(self.log)), (), old.et, self.m.prog), old.et))
            self.set_model(st, v)
            self.log.append((name, before, dict(v.f), flags, st.ctx))
            return None
        return con

    def zbl(self, ex, st, this, args):
        if this != (self.m.root, (("f", "mace"), ("f", "zbl"))):
            raise Unsupported("ZBL object")
        self.cut(st)
        before = dict(self.model(st).f)
        prm = [p.get("name") for p in ex.params(self.decl("ZBL::compute_ZBL"))]
        outs = ("node_energies", "node_forces", "atomic_numbers")
        for nm, a in zip(prm, args):
            if nm in outs:
                v = a[1] if a[0] == "val" else None
                path = v.path if isinstance(v, SpanVal) else a[1] if a[0] == "path" else None
                ok = path == (self.m.root, (("f", "mace"), ("f", nm))) and not (isinstance(v, SpanVal) and not v.off.is_zero())
                ex.oblige("precondition", TRUE if ok else FALSE, "compute_ZBL is given the model's %s" % nm, st)
        self.given_zbl(st, [(n, a) for n, a in zip(prm, args) if n not in outs])
        v = self.model(st)
        for k in outs[:2]:
            v = v.with_(k, VecVal(v.f[k].len, SymArr("zbl.%s#%d" % (k, len(self.log)), (), DBL, self.m.prog), DBL))
        self.set_model(st, v)
        self.log.append(("zbl", before, dict(v.f), {}, st.ctx))

    def given_zbl(self, st, named):
        self.given(st, "ZBL::compute_ZBL", [a for n, a in named], self.w.N, [n for n, a in named])

    def exchange(self, name, k):
        def con(ex, st, this, args):
            S, m, w = self.S, self.m, self.w
            self.settle(st)
            own, mod = st.mem[m.root].f[k], self.model(st).f[k]
            a, b = var("a"), var("b")
            q = a * m.w + b
            S.eq("%s has a row for every atom and ghost before the exchange%s" % (k, self.tag), st.ctx, own.len, w.nall * m.w, fn=self.fn)
            c = st.ctx.assume(mk_le(ZERO, a), mk_lt(a, w.N if k == "H1" else w.nall), mk_le(ZERO, b), mk_lt(b, m.w))
            S.eq("%s sent is the model's%s" % (k, self.tag), c, own.arr.read(q, c), mod.arr.read(q, c), fn=self.fn)
            x = VecVal(w.nall * m.w, SymArr("exchanged.%s#%d" % (k, len(self.log)), (), DBL, m.prog), DBL)
            before = dict(self.model(st).f)
            after = dict(before)
            after[k] = x
            self.log.append((name, before, after, {}, st.ctx))
            st.mem[m.root] = st.mem[m.root].with_(k, x)
            self.exchanged[k] = x
            return None
        return con

    def run(self):
        S, m, w, ex = self.S, self.m, self.w, self.ex
        self.M = getattr(self, "M_", w.N)
        self.contracts()
        for has in (FALSE, TRUE):
            self.tag = " (with ZBL)" if has is TRUE else ""
            self.log, self.exchanged = [], {}
            st = self.begin(has_zbl=has)
            m.call(st, self.name, [var("eflag"), var("vflag")])
            self.stages(st, has is TRUE)
            self.results(st)
            S.take(ex)

    LINKS = {"forward_comm": "H1", "reverse_comm": "H1_adj"}

    def stages(self, st, has):
        self.N, self.tot = self.w.N, self.pairs_before(self.M)
        self.adj.chain(self, self.S, st, self.log, self.fn, has, self.LINKS, self.tag)

    def get(self, st, k):
        return self.model(st).f[k]


class Ghosts(Messages):
    """no messages: the first layer is also evaluated on the ghosts next to owned atoms"""
    FIRST = ("compute_R0", "compute_A0", "compute_A0_scaled", "compute_M0", "compute_H1", "reverse_H1", "reverse_M0", "reverse_A0_scaled", "reverse_A0")
    LINKS = {}

    def nodes(self, name):
        return self.M if name in self.FIRST else self.w.N

    def node(self, a):
        return app("cut.node_i", (a,), "I")

    row = lambda self, j: app("cut.ii_from_i", (j,), "I")

    def cases(self, ctx, a):
        """the nodes: owned atoms in order, then the ghost nodes"""
        yield ctx.assume(mk_lt(a, self.w.N)), a, " (owned)"
        yield ctx.assume(mk_le(self.w.N, a)), app("cut.ghost_indices", (a - self.w.N,), "I"), " (ghost)"

    def run(self):
        w = self.w
        k = fresh("k")
        self.G = mk_msum([(k, w.nall)], ind(bapp("cut.is_ghost", (k,))))
        self.M_ = w.N + self.G
        ax = w.ctx.axioms
        gi = lambda *a: app("cut.ghost_indices", a, "I")
        nd = lambda *a: app("cut.node_i", a, "I")
        out = lambda a, n: [mk_lt(a, ZERO), mk_le(n, a)]
        imp = lambda a, n, x: mk_or(*out(a, n), x)
        ax.add("cut.ghost_indices", lambda *a: [imp(a[0], self.G, x) for x in (mk_le(w.N, gi(*a)), mk_lt(gi(*a), w.nall))])
        ax.one_to_one["cut.ghost_indices"] = self.G
        ax.add("cut.node_i", lambda *a: [imp(a[0], self.M_, x) for x in (mk_le(ZERO, nd(*a)), mk_lt(nd(*a), w.nall))])
        w.ctx = w.ctx.assume(mk_le(ZERO, self.G))
        self.S.vacuity("ghost nodes", w.ctx.assume(mk_le(P(2), w.N), mk_le(ONE, self.G)))
        Messages.run(self)

    def made(self, nm, x, st):
        S, w = self.S, self.w
        k, a, b = var("k"), var("a"), var("b")
        if nm == "is_ghost":
            c = st.ctx.assume(mk_le(ZERO, k), mk_lt(k, w.N))
            S.holds("no owned atom is marked as a ghost node%s" % self.tag, c, mk_not(x.arr.read(k, c)), fn=self.fn)
            j = w.nbr(a, b)
            c = st.ctx.assume(mk_le(ZERO, a), mk_lt(a, w.N), mk_le(ZERO, b), mk_lt(b, w.nn(a)), w.near(a, b), mk_le(w.N, j))
            arr, done = x.arr, False
            while isinstance(arr, UpdArr) and arr.mode == "mark" and arr.val is TRUE and not done:
                if len(arr.params) == 2:          # the visit of this very pair marks it
                    idx, _, g = arr.instance([a, b])
                    done = c.decide(g) is True and prove_int_eq(c, idx, j)
                arr = arr.base
            S.holds("every ghost within the cutoff of an owned atom is marked as a ghost node%s" % self.tag, c, TRUE if done else x.arr.read(j, c), fn=self.fn)
        if nm == "ghost_indices":
            c = st.ctx.assume(mk_le(ZERO, k), mk_lt(k, w.nall)).assume(bapp("cut.is_ghost", (k,)))
            u = fresh("u")
            S.eq("ghost_indices has one entry per ghost node%s" % self.tag, st.ctx, x.len, self.G, fn=self.fn)
            S.eq("ghost_indices lists the ghost nodes%s" % self.tag, c, x.arr.read(mk_msum([(u, k)], ind(bapp("cut.is_ghost", (u,)))), c), k, fn=self.fn)

    def join(self, st):
        """a sum over the ghost nodes is the sum over all nodes less the sum over the owned atoms"""
        t, b = fresh("t"), fresh("b")
        pairs = lambda n, o: mk_msum([(t, n), (b, self.w.nn(self.node(t + o)))], ind(self.w.near(self.node(t + o), b)))
        g = pairs(self.G, self.w.N).as_atom()
        for r, v in list(st.mem.items()):
            if isinstance(v, Poly) and g in collect_atoms(v):
                st.mem[r] = with_atom(v, g, pairs(self.M, ZERO) - pairs(self.w.N, ZERO))

    def hook(self, st):
        Messages.hook(self, st)
        if self.post is not None:
            return
        self.join(st)
        v = st.mem[self.m.root]
        path = lambda k: (self.m.root, (("f", k),))
        a = var("a")
        ctx = st.ctx.assume(mk_le(ZERO, a), mk_lt(a, self.M))
        for k in ("node_i", "ii_from_i", "num_neigh"):
            x = v.f[k]
            if path(k) in self.snap or not isinstance(x.arr, UpdArr) or path("ghost_indices") not in self.snap:
                continue
            self.snap[path(k)] = (x, st.ctx)
            if k == "ii_from_i":
                for c, i, what in self.cases(ctx, a):
                    self.S.eq("the place of the atom of node a is a%s%s" % (what, self.tag), c, x.arr.read(i, c), a, fn=self.fn)
                x = VecVal(x.len, SymArr("cut.ii_from_i", (), INT, self.m.prog), INT)
            elif k == "node_i":
                self.role(path(k), "node_i", self.M)
                x = VecVal(x.len, SymArr("cut.node_i", (), INT, self.m.prog), INT)
            else:
                self.role(path(k), "num_neigh", self.M)
                x = VecVal(x.len, LamArr(lambda a: self.count(self.node(a))), INT)
            v = v.with_(k, x)
        st.mem[self.m.root] = v


def counted(a):
    while isinstance(a, (UpdArr, ResizeArr)):
        if isinstance(a, UpdArr) and a.mode == "mark":
            return True
        if isinstance(a, UpdArr) and any(x.kind == "msum" for x in collect_atoms(a.idx)):
            return True
        a = a.base
    return isinstance(a, IteArr)


def dispatch(S):
    """compute() runs the function of the mode chosen"""
    modes = ("no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing")
    for k in modes:
        m = PairStyle(S)
        got = []
        for q in modes:
            m.ex.contracts[CLS + "::compute_" + q] = lambda ex, st, this, args, q=q: got.append((q, [scalar(ex, st, a) for a in args]))
        st = m.start(m.ctx, mode=StrVal('"%s"' % k))
        m.call(st, "compute", [var("eflag"), var("vflag")])
        S.fact("compute() in mode %s runs compute_%s with its own arguments, once" % (k, k), got == [(k, [var("eflag"), var("vflag")])],
               fn=CLS + "::compute", kind="postcondition", definite=False)
        S.take(m.ex)


PARTS = {"comm": lambda S: (comm(S), dispatch(S)), "serial": lambda S: Mode(S, "compute_no_domain_decomposition").run(),
         "messages": lambda S: Messages(S, "compute_mpi_message_passing").run(),
         "ghosts": lambda S: Ghosts(S, "compute_no_mpi_message_passing").run()}


def part(prop, name, S):
    PARTS[name](S)
    S.level = "other"
    S.trusted.add("LAMMPS: full neighbour list with ilist[i] == i, neighbour numbers masked by NEIGHMASK are atoms or ghosts, atom->map gives the owned atom of a tag, "
                  "contiguous forces; forward/reverse communication deliver each packed message to unpack_*_comm of the owning rank; every type has a model element")
    S.trusted.add("the list of marked ghosts names each of them once, in order; the neighbour of an owned atom is an owned atom or such a ghost, so it is a node (counting)")
    S.trusted.add("a position counts the neighbours within the cutoff before it, so it names exactly one of them (counting)")
    S.trusted.add("evaluator stages by the contracts of C18, compute_ZBL by C08, summed over the ranks: communication is the adjoint of itself")
    if name == "comm":
        S.bounded_parts.append("settings, coeff, init_style, init_one: the real code "
                               "compiled against mock LAMMPS headers and run on random periodic and open systems of up to 10 atoms, 1-3 ranks, all modes; not proved")


def C21(S):
    for k in PARTS:
        part("C21", k, S)


PROPS = {"C21": C21}
