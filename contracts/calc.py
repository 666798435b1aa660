"""Contracts of the ASE calculator (C20): Symmetrix.calculate of symmetrix_calc.py, run over symbolic structures.

Contracts assumed of its collaborators:
  neighbour list   pairs (i,j,d,D) with 0 <= i,j < N, sorted by i, d > 0, symmetric: every atom occurs equally often as i and as j
  evaluator        after compute_node_energies_forces: node_energies has N entries, node_forces at least 3 per pair (C18)
  ASE              Calculator.calculate stores the structure; cell.rank, get_volume; full_3x3_to_voigt_6_stress: xx,yy,zz,yz,xz,xy
"""
import logging
import json as _json
import os
from vc import pysym
from vc.session import *
from vc.pysym import Num, Arr, Engine, Numpy, T
from vc import cppast

PATH = "symmetrix/source/symmetrix/symmetrix_calc.py"
FN = "Symmetrix.calculate"
N, NP, NF, RANK, VOL, CUT = var("N"), var("num_pairs"), var("rows_of_node_forces"), var("rank"), var("volume", "R"), var("r_cut", "R")


def I(p): return app("I", (p,), "I")
def J(p): return app("J", (p,), "I")
def typ(z): return app("type_of", (z,), "I")
def Z(i): return app("Z", (i,), "I")


class Cell:
    @property
    def rank(self): return Num(RANK)

    @property
    def volume(self): return volume()

    def __getattr__(self, n): pysym.bad("cell.%s" % n)


def volume():
    pysym.CUR.need("volume asked only of a structure with a three-dimensional cell", mk_eq(RANK, P(3)))
    return Num(VOL)


class Atoms:
    cell = Cell()
    def sym_len(self): return N
    def get_atomic_numbers(self): return Arr((N,), lambda ix: Z(ix[0]))
    numbers = property(get_atomic_numbers)
    def get_global_number_of_atoms(self): return Num(N)
    def get_volume(self): return volume()
    def get_cell(self): return self.cell
    def copy(self): return self
    def __getattr__(self, n): pysym.bad("atoms.%s" % n)


class Numbers:
    """the model's list of atomic numbers; the structure contains only these"""
    def index(self, z): return Num(typ(T(z)))
    def __getattr__(self, n): pysym.bad("atomic_numbers.%s" % n)


class Evaluator:
    atomic_numbers = Numbers()

    def __init__(self):
        self.__dict__.update(r_cut=Num(CUT), calls=[])

    def compute_node_energies_forces(self, *a):
        self.calls.append((pysym.CUR.ctx, a))

    @property
    def node_energies(self):
        g = len(self.calls)
        return Arr((N if g else app("stale_size", (), "I"),), lambda ix: app("E%d" % g, ix))

    @property
    def node_forces(self):
        g = len(self.calls)
        return Arr((3 * NF if g else 3 * app("stale_rows", (), "I"),), lambda ix: app("F%d" % g, ix))

    def __getattr__(self, n):
        if n == "calls":
            raise AttributeError(n)
        pysym.bad("evaluator.%s" % n)


class Calculator:
    def __init__(self, *a, **k):
        self.results, self.atoms = {}, None

    def calculate(self, atoms=None, properties=(), system_changes=()):
        if atoms is not None:
            self.atoms = atoms.copy()


def neighbor_list(q, atoms, cutoff, *a, **k):
    if a or k or not isinstance(q, str) or not set(q) <= set("ijdD"):
        pysym.bad("neighbour list options")
    pysym.CUR.oblige("neighbour list of the given structure", isinstance(atoms, Atoms), definite=True)
    pysym.CUR.need("neighbour list uses the model's cutoff", mk_eq(T(cutoff), CUT))
    m = dict(i=Arr((NP,), lambda ix: I(ix[0])), j=Arr((NP,), lambda ix: J(ix[0])), d=Arr((NP,), lambda ix: app("d", ix)),
             D=Arr((NP, P(3)), lambda ix: app("D", ix)))
    r = tuple(m[c] for c in q)
    return r if len(r) > 1 else r[0]


class Voigt:
    def __init__(self, m): self.m = m


def voigt(m):
    m = pysym.asarray(m)
    if m.ndim != 2 or pysym.const(m.shape_t[0]) != 3 or pysym.const(m.shape_t[1]) != 3:
        pysym.bad("stress matrix is not 3 x 3")
    return Voigt(m)


CONTRACTS = {("numpy", None): Numpy(), ("json", None): _json, ("logging", None): logging, ("*", "neighbor_list"): neighbor_list,
             ("*", "neighbour_list"): neighbor_list, ("*", "Calculator"): Calculator, ("*", "all_changes"): [],
             ("*", "PropertyNotImplementedError"): NotImplementedError, ("*", "full_3x3_to_voigt_6_stress"): voigt}


def C20(S):
    ns = pysym.load(os.path.join(cppast.REPO, PATH), CONTRACTS)
    cls = ns["Symmetrix"]
    ctx = Ctx([mk_le(ZERO, N), mk_le(ZERO, NP), mk_le(NP, NF), mk_le(ZERO, RANK), mk_le(RANK, P(3)), mk_lt(ZERO, VOL), mk_lt(ZERO, CUT)])
    ax = ctx.axioms
    for f in ("I", "J"):
        ax.add(f, lambda *a, f=f: [mk_le(ZERO, app(f, a, "I")), mk_lt(app(f, a, "I"), N)] if a else [])
    ax.add("d", lambda *a: [mk_lt(ZERO, app("d", a))] if a else [])
    S.vacuity(FN, ctx.assume(mk_le(ONE, N), mk_le(ONE, NP)))
    S.functions[FN] = True
    eng = Engine(ctx, FN)
    holder = {}

    def go():
        c = cls.__new__(cls)
        Calculator.__init__(c)
        c.evaluator = Evaluator()
        c.cutoff = c.evaluator.r_cut
        holder["c"] = c
        c.calculate(Atoms(), ["energy"], [])
        return c
    npaths = 0
    for cx, (how, val) in eng.run(go):
        npaths += 1
        for what, ok, det, d in eng.obls:
            S.fact(what, ok, det, fn=FN, kind="precondition", definite=d)
        eng.obls = []
        if how == "raise" and not isinstance(val, (ValueError, RuntimeError, ArithmeticError, AssertionError)):
            pysym.bad("a path raises %s: %s" % (type(val).__name__, val))
        if how == "raise":
            S.fact("calculate does not raise", False, "%s: %s" % (type(val).__name__, val), fn=FN, definite=False)
            continue
        pysym.CUR = eng
        eng.ctx = cx
        results(S, cx, holder["c"])
        for what, ok, det, d in eng.obls:
            S.fact(what, ok, det, fn=FN, kind="precondition", definite=d)
        eng.obls = []
    S.fact("some path returns", npaths > 0, fn=FN, kind="vacuity")
    S.notes.append("%d paths of %s" % (npaths, FN))
    S.trusted |= {"the Python interpreter; contracts of numpy functions in vc/pysym.py", "contract of the neighbour list (ASE or matscipy): "
                  "sorted by first atom, symmetric, distances and vectors consistent", "contract of ase.stress.full_3x3_to_voigt_6_stress (for a symmetric matrix)",
                  "contract of the evaluator: one energy per atom and three force components per pair after a call (C18)"}
    S.assumptions |= {"every species of the structure is known to the model", "pair stress sum is symmetric (rotational invariance), as ASE's conversion assumes"}


def results(S, cx, c):
    calls = c.evaluator.calls
    if not S.fact("the model is evaluated", len(calls) >= 1, fn=FN, definite=True):
        return
    g = len(calls)
    cc, a = calls[-1]
    E = lambda *ix: app("E%d" % g, ix)
    F = lambda *ix: app("F%d" % g, ix)
    if len(a) != 7:
        pysym.bad("number of arguments of the evaluator")
    i, p, q = var("i"), var("p"), var("q")
    ci, cp = cx.assume(mk_le(ZERO, i), mk_lt(i, N)), cx.assume(mk_le(ZERO, p), mk_lt(p, NP))
    S.eq("evaluated nodes are all atoms", cx, T(a[0]), N, fn=FN)
    for k, nm, n in ((1, "node_types", N), (2, "num_neigh", N), (3, "neigh_indices", NP), (4, "neigh_types", NP), (5, "xyz", 3 * NP), (6, "r", NP)):
        if not isinstance(a[k], Arr) or a[k].ndim != 1:
            pysym.bad("argument %s of the evaluator" % nm)
        S.eq("%s has the right length" % nm, cx, a[k].shape_t[0], n, fn=FN)
    S.eq("node_types[i] is the type of atom i", ci, a[1].fn((i,)), typ(Z(i)), fn=FN)
    v = fresh("p")
    cnt = lambda f: mk_msum([(v, NP)], ind(mk_eq(f(v), i)))
    nn = a[2].fn((i,))
    ok = any(prove_eq(ci, nn, cnt(f)) for f in (I, J))
    if ok:
        S.fact("num_neigh[i] counts the pairs of atom i", True, fn=FN)
    else:
        S.eq("num_neigh[i] counts the pairs of atom i", ci, nn, cnt(I), fn=FN)
    S.eq("neigh_indices[p] is the second atom of pair p", cp, a[3].fn((p,)), J(p), fn=FN)
    S.eq("neigh_types[p] is the type of the second atom of pair p", cp, a[4].fn((p,)), typ(Z(J(p))), fn=FN)
    for x in range(3):
        S.eq("xyz of pair p, component %d" % x, cp, a[5].fn((3 * p + x,)), app("D", (p, P(x))), fn=FN)
    S.eq("r of pair p", cp, a[6].fn((p,)), app("d", (p,)), fn=FN)
    r = c.results
    for k in ("energy", "free_energy", "energies", "forces"):
        if not S.fact("results has " + k, k in r, fn=FN, definite=True):
            return
    tot = mk_msum([(v, N)], E(v))
    S.eq("energy is the sum of the atomic energies", cx, T(r["energy"]), tot, fn=FN)
    S.eq("free_energy is the energy", cx, T(r["free_energy"]), tot, fn=FN)
    en, fo = r["energies"], r["forces"]
    if not isinstance(en, Arr) or not isinstance(fo, Arr) or fo.ndim != 2 or en.ndim != 1:
        pysym.bad("shape of the results")
    S.eq("one atomic energy per atom", cx, en.shape_t[0], N, fn=FN)
    S.eq("atomic energy of atom i", ci, en.fn((i,)), E(i), fn=FN)
    S.eq("one force per atom", cx, fo.shape_t[0], N, fn=FN)
    S.eq("three force components", cx, fo.shape_t[1], P(3), fn=FN)
    w = fresh("a")
    for x in range(3):
        spec = mk_msum([(v, NP)], (ind(mk_eq(J(v), i)) - ind(mk_eq(I(v), i))) * F(3 * v + x))
        S.eq("force component %d: pair forces pointing to the atom minus those leaving it" % x, ci, fo.fn((i, P(x))), spec, fn=FN)
        S.eq("forces add up to zero, component %d" % x, cx, mk_msum([(w, N)], fo.fn((w, P(x)))), ZERO, fn=FN, kind="lemma")
    has = "stress" in r
    if cx.prove(mk_eq(RANK, P(3))):
        if not S.fact("results has stress", has, fn=FN, definite=True):
            return
    elif not cx.prove(mk_lt(RANK, P(3))):
        cx = cx.assume(mk_eq(RANK, P(3)))
        S.fact("results has stress when there is a volume", has, fn=FN, definite=True)
    else:
        return
    if not has:
        return
    st = r["stress"]
    vg = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    for k, (x, y) in enumerate(vg):
        s = lambda x, y: mk_msum([(v, NP)], F(3 * v + x) * app("D", (v, P(y))))
        spec = -(s(x, y) + s(y, x)) * P(Fraction(1, 2)) * inv(VOL)
        if isinstance(st, Voigt):
            got = (st.m.fn((P(x), P(y))) + st.m.fn((P(y), P(x)))) * P(Fraction(1, 2))
        elif isinstance(st, Arr) and st.ndim == 1:
            got = st.fn((P(k),))
        else:
            pysym.bad("form of the stress")
        S.eq("stress component %d" % k, cx, got, spec, fn=FN)


PROPS = {"C20": C20}
