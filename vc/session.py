"""One verification session = one property: obligations, verdicts, evidence."""
import time
from . import cppast, prover
from .exec import *
from .loops import comp_names_in
from . import numeval


class Item:
    """a recorded obligation"""
    __slots__ = ("name", "kind", "fn", "status", "detail", "definite")

    def __init__(self, name, kind, fn, status, detail="", definite=None):
        self.name, self.kind, self.fn, self.status, self.detail, self.definite = name, kind, fn, status, detail, definite


class Session:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.items = []
        self.limits = []            # out-of-reach reports
        self.functions = {}         # qualified name -> where
        self.assumptions = set()
        self.trusted = set()
        self.consts = set()
        self.vac = []
        self.notes = []
        self.bounded_parts = []
        self.recursive = set()
        self.level = "proof"
        self._progs = {}
        self.t0 = time.time()

    # ------------------------------------------------------------ programs
    def prog(self, *files, extra=()):
        key = files + tuple(extra)
        if key not in self._progs:
            self._progs[key] = load_files(files, extra)
        return self._progs[key]

    # ------------------------------------------------------------ obligations
    def take(self, ex, group=""):
        """collect the side obligations generated while executing the real code"""
        for o in ex.obls:
            d = None
            if o.status == "failed":
                d = not any(self.unclear(f) for f in (o.goal,) + tuple(o.ctx.facts)) and numeval.refute_bool(o.ctx, o.goal) is True
                self.unsummarised(o.what, o.goal)
            self.items.append(Item((group + ": " if group else "") + o.what, o.kind, o.where, o.status,
                                   "" if o.status == "discharged" else "cannot prove %s" % (str(o.goal)[:600],), d))
        for o in ex.pending:
            self.items.append(Item(o.what, o.kind, o.where, "failed", "left pending", False))
        ex.obls, ex.pending = [], []
        for f in ex.functions_seen:
            self.functions.setdefault(f, True)
        self.assumptions |= ex.assumptions
        self.consts |= ex.consts

    def eq(self, name, ctx, a, b, unfold=None, fn="", ex=None, kind="postcondition"):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("value out of reach: %r" % (a if isinstance(a, Opaque) else b,))
        info = {}
        ok = prove_eq(ctx, a, b, unfold, info=info)
        d, det = None, ""
        if not ok:
            r = info.get("residual", a - b)
            c = info.get("ctx", ctx)
            d = not self.unclear(r) and numeval.refute_eq(c, r) is True
            det = "difference %s" % (str(r)[:800],)
            self.unsummarised(name, r)
        self.items.append(Item(name, kind, fn, "discharged" if ok else "failed", det, d))
        return ok

    def holds(self, name, ctx, goal, fn="", ex=None, kind="postcondition", hard=True):
        ok = ctx.prove(goal) or (hard and ctx.prove(goal, True))
        d, det = None, ""
        if not ok:
            d = not self.unclear(goal) and numeval.refute_bool(ctx, goal) is True
            det = "cannot prove %s" % (str(goal)[:800],)
            self.unsummarised(name, goal)
        self.items.append(Item(name, kind, fn, "discharged" if ok else "failed", det, d))
        return ok

    def fact(self, name, ok, detail="", fn="", kind="postcondition", definite=None):
        self.items.append(Item(name, kind, fn, "discharged" if ok else "failed", detail, definite if not ok else None))
        return ok

    def unclear(self, x):
        """the term mentions loop state the verifier has no value for, or a recursively specified function: a numeric
        interpretation would not be a counterexample"""
        for a in collect_atoms(x):
            if a.kind in ("app", "bapp"):
                n = a.args[0]
                if "~" in n or n.startswith("unspecified!") or n in self.recursive:
                    return True
        return False

    def unsummarised(self, name, x):
        """the obligation speaks about loop state no invariant was found for: the verifier's limit, not a refutation"""
        for a in collect_atoms(x):
            if a.kind in ("app", "bapp") and "~" in a.args[0]:
                self.limit("no invariant found for %s (in: %s)" % (a.args[0], name[:120]))
                return

    def limit(self, what):
        self.limits.append(what)

    def vacuity(self, name, ctx):
        """the assumptions of a contract must be satisfiable, otherwise everything would be provable"""
        sat = not ctx.inconsistent() and bool(numeval.models(ctx, want=1))
        self.vac.append((name, sat))
        if not sat:
            self.limit("vacuity guard: no witness for the precondition of " + name)
        return sat

    # ------------------------------------------------------------ result
    def failed(self):
        return [i for i in self.items if i.status != "discharged"]

    def summary(self):
        by = {}
        for i in self.items:
            by.setdefault(i.fn or "(lemma)", [0, 0])
            by[i.fn or "(lemma)"][0] += 1
            by[i.fn or "(lemma)"][1] += i.status == "discharged"
        return by


_cache = {}


def load_files(files, extra=()):
    """several .cpp files of /repo as one translation unit"""
    key = (tuple(files), tuple(extra))
    if key in _cache:
        return _cache[key]
    import os
    import tempfile
    paths = [f if os.path.isabs(f) else os.path.join(cppast.REPO, "libsymmetrix/source", f) for f in files]
    if len(paths) == 1:
        p = cppast.load(paths, extra=extra)
    else:
        with tempfile.TemporaryDirectory() as d:
            tu = os.path.join(d, "tu.cpp")
            with open(tu, "w") as f:
                for q in paths:
                    f.write('#include "%s"\n' % q)
            p = cppast.load([tu], roots=[cppast.REPO], extra=extra)
    _cache[key] = p
    return p
