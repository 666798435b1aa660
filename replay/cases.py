"""Inputs for, and independent oracles of, the real compiled code.  One Prop per property:
  gen(R)   -> a JSON-able case            run(case) -> None or a message describing the disagreement
The deciding step of a check is the proof; these cases replay a failed obligation against the real code,
stand in (labelled bounded) where the code is out of the verifier's reach, and confirm on every run that
the compiled code behaves like the verified text."""
import itertools
import math
import os
import sys

import numpy as np

D = os.environ.get("VREP_DIR")
vrep = None


def mod():
    global vrep
    if vrep is None:
        sys.path.insert(0, D)
        import vrep as v
        vrep = v
    return vrep


def raises(f, *a):
    try:
        f(*a)
    except MemoryError:
        raise
    except Exception as e:      # noqa: BLE001  (pybind maps C++ exceptions)
        return type(e).__name__ + ": " + str(e)
    return None


def close(a, b, scale, rel=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        return False
    return bool(np.all(np.abs(a - b) <= rel * np.maximum(scale, 1e-300)))


class R:
    """seeded choices, biased towards the numeric constants that occur in the source"""

    def __init__(self, seed, consts):
        self.g = np.random.default_rng(seed)
        self.reals = sorted({abs(float(c)) for c in consts if math.isfinite(float(c)) and abs(float(c)) < 1e9})
        self.ints = sorted({int(c) for c in self.reals if float(c).is_integer() and c <= 4096})

    def u(self, lo=0.0, hi=1.0):
        return float(self.g.uniform(lo, hi))

    def n(self, lo, hi):
        return int(self.g.integers(lo, hi + 1))

    def coin(self, p=0.5):
        return self.u() < p

    def pick(self, xs):
        return xs[self.n(0, len(xs) - 1)]

    def size(self, lo, hi, big=None, pb=0.12):
        """size in [lo,hi], sometimes near a constant of the source, sometimes up to big"""
        z = self.u()
        if z < 0.35 and self.ints:
            c = self.pick(self.ints) + self.n(-1, 1)
            if lo <= c <= (big or hi):
                return c
        if big and self.u() < pb:
            return self.n(lo, big)
        return self.n(lo, hi)

    def x(self, scale=1.0):
        z = self.u()
        if z < 0.08:
            return 0.0
        if z < 0.16 and self.reals:
            return self.pick(self.reals) * (1 if self.coin() else -1)
        if z < 0.25:
            return float(self.n(-3, 3))
        if z < 0.35:
            return self.u(-10, 10) * scale
        return float(self.g.normal()) * scale

    def xs(self, n, scale=1.0):
        if n > 200:
            return (self.g.normal(size=n) * scale).tolist()
        return [self.x(scale) for _ in range(n)]


PROPS = {}


def prop(name):
    def d(cls):
        PROPS[name] = cls()
        return cls
    return d


# ------------------------------------------------------------------------------------------------ splines
def hermite(h, v, d, r, i=None):
    n = len(v)
    if i is None:
        i = min(max(int(math.floor(r / h)), 0), n - 2)
    t = (r - h * i) / h
    v0, v1, d0, d1 = v[i], v[i + 1], h * d[i], h * d[i + 1]
    f = v0 * (1 + 2 * t) * (1 - t) ** 2 + d0 * t * (1 - t) ** 2 + v1 * t * t * (3 - 2 * t) + d1 * t * t * (t - 1)
    g = (v0 * (6 * t * t - 6 * t) + d0 * (3 * t * t - 4 * t + 1) + v1 * (6 * t - 6 * t * t) + d1 * (3 * t * t - 2 * t)) / h
    sc = abs(v0) + abs(v1) + abs(d0) + abs(d1) + 1e-12
    return f, g, sc


def gen_spline(R, inside=True):
    h = R.pick([R.u(0.01, 2.0), 10 ** R.u(-3, 3), 1.0, 0.5, 0.1] + ([R.pick(R.reals) or 1.0] if R.reals else []))
    if h < 1e-4:
        h = 0.25
    n = R.size(2, 12, 3000)
    c = dict(h=h, v=R.xs(n), d=R.xs(n), r=[])
    for _ in range(6):
        i = R.size(0, n - 2)
        if i > n - 2:
            i = R.n(0, n - 2)
        z = R.u()
        if z < 0.2:
            r = h * i
        elif z < 0.3:
            r = h * (i + 1) * (1 - 1e-13) if i < n - 2 else h * (i + 0.75)
        elif z < 0.4:
            r = h * R.u(0, 1) if R.coin() else h * (n - 1 - R.u(0.001, 1))
        elif z < 0.5 and R.reals:
            w = R.pick(R.reals) * R.u(0.3, 1.0)
            r = R.pick([h * (i + w), h * i + w, w, h * (i + 1 - w), h * (i + 1) - w])
        else:
            r = h * (i + R.u(0, 0.999))
        if r < 0 or r >= h * (n - 1) * (1 - 1e-12):
            r = h * (n - 1) * R.u(0, 0.999)
        c["r"].append(r)
    return c


class Multi:
    """one or two objects, queried in an interleaved order with repetitions: results must not depend on history"""

    def gen(self, R):
        subs = [self.sub(R) for _ in range(R.pick([1, 1, 2]))]
        if len(subs) == 2 and R.coin(0.4):
            self.relate(R, subs)
        order = []
        for k, c in enumerate(subs):
            order += [[k, q] for q in range(self.nq(c))]
        R.g.shuffle(order)
        order = [list(map(int, o)) for o in order]
        rep = [o for o in order if R.coin(0.3)]
        out = []
        for o in order:
            out.append(o)
            if R.coin(0.25):
                out.append(o)
        return dict(subs=subs, order=out + rep)

    def relate(self, R, subs):
        pass

    def run(self, c):
        objs = [self.make(x) for x in c["subs"]]
        for k, q in c["order"]:
            m = self.check(objs[k], c["subs"][k], q)
            if m:
                return m + (" (object %d of the case, in the given call order)" % k)


class _Spline(Multi):
    def sub(self, R):
        return gen_spline(R)

    def nq(self, c):
        return len(c["r"])

    def relate(self, R, subs):
        subs[1]["h"] = subs[0]["h"]
        n = len(subs[1]["v"])
        top = subs[1]["h"] * (n - 1)
        subs[1]["r"] = [r if r < top * (1 - 1e-12) else top * R.u(0, 0.999) for r in subs[0]["r"]]

    def make(self, c):
        return mod().CubicSpline(c["h"], c["v"], c["d"])


@prop("C01")
class _C01(_Spline):
    def check(self, s, c, q):
        r = c["r"][q]
        f, g, sc = hermite(c["h"], c["v"], c["d"], r)
        for nm, val in (("evaluate", s.evaluate(r)), ("evaluate_deriv", s.evaluate_deriv(r)[0]),
                        ("evaluate_deriv_divided", s.evaluate_deriv_divided(r)[0]), ("evaluate", s.evaluate(r))):
            if not close(val, f, sc):
                return "%s(%r) = %r, Hermite value %r" % (nm, r, val, f)


@prop("C02")
class _C02(_Spline):
    def check(self, s, c, q):
        r = c["r"][q]
        if q % 2:
            s.evaluate(r)
        f, g, sc = hermite(c["h"], c["v"], c["d"], r)
        val = s.evaluate_deriv(r)[1]
        if not close(val, g, sc / c["h"], 1e-8):
            return "evaluate_deriv(%r)[1] = %r, derivative %r" % (r, val, g)
        if r > 0:
            val = s.evaluate_deriv_divided(r)[1]
            if not close(val, g / r, sc / c["h"] / r, 1e-8):
                return "evaluate_deriv_divided(%r)[1] = %r, derivative/r %r" % (r, val, g / r)


@prop("C03")
class _C03(_Spline):
    def sub(self, R):
        c = gen_spline(R)
        h, n = c["h"], len(c["v"])
        top = h * (n - 1)
        bad = []
        for _ in range(4):
            bad.append(R.pick([-h * R.u(1e-6, 1), -h * R.u(1, 5), -h, -h * R.u(0, 1) * 1e-6 - 1e-290, -top, -1e6 * h, top * (1 + 1e-9) + 1e-300,
                               top + h * R.u(0.001, 1), top + h * R.u(1, 6), 2 * top, 4 * top, top + 2 * h, 1e5 * top]
                              + ([-h * R.pick(R.reals), top + h * R.pick(R.reals) + 1e-9 * top] if R.reals else [])))
        z = n - 1
        if z & (z - 1) == 0:
            bad.append(top)     # r/h exact
        c["bad"] = [b for b in bad if b < 0 or b >= top]
        return c

    def relate(self, R, subs):
        pass

    def nq(self, c):
        return len(c["r"]) + len(c["bad"])

    def check(self, s, c, q):
        inside = q < len(c["r"])
        r = c["r"][q] if inside else c["bad"][q - len(c["r"])]
        for nm in ("evaluate", "evaluate_deriv", "evaluate_deriv_divided"):
            e = raises(getattr(s, nm), r)
            if inside and e:
                return "%s(%r) inside the domain [0,%r) raised %s" % (nm, r, c["h"] * (len(c["v"]) - 1), e)
            if not inside and not e:
                return "%s(%r) outside the domain [0,%r) did not raise" % (nm, r, c["h"] * (len(c["v"]) - 1))


@prop("C04")
class _C04(Multi):
    def sub(self, R):
        c = gen_spline(R)
        m = R.size(1, 6, 300)
        n = len(c["v"])
        if m * n > 12000:
            n = max(2, 12000 // m)
        c["V"] = [R.xs(n) for _ in range(m)]
        c["D"] = [R.xs(n) for _ in range(m)]
        c["extra"] = R.n(0, 3)
        c["fresh"] = R.coin()
        c["r"] = [r if r < c["h"] * (n - 1) * (1 - 1e-9) else c["h"] * (n - 1) * R.u(0, 0.999) for r in c["r"]]
        del c["v"], c["d"]
        return c

    def nq(self, c):
        return len(c["r"])

    def make(self, c):
        m = len(c["V"]) + c["extra"]
        return [mod().CubicSplineSet(c["h"], c["V"], c["D"]), np.zeros(m), np.zeros(m), np.zeros(m), 0]

    def check(self, o, c, q):
        s, va, vb, db, k = o
        o[4] += 1
        m, r = len(c["V"]), c["r"][q]
        if c["fresh"]:
            va, vb, db = va.copy(), vb.copy(), db.copy()
        va[:] = 7.25e3 + k
        vb[:] = -3.5e3 - k
        db[:] = 11.0 + k
        both = [lambda: s.evaluate(r, va), lambda: s.evaluate_derivs(r, vb, db)]
        for f in both if (k + q) % 2 else both[::-1]:
            f()
        for j in range(m):
            f, g, sc = hermite(c["h"], c["V"][j], c["D"][j], r)
            if not close(va[j], f, sc):
                return "evaluate(%r)[%d] = %r, expected %r" % (r, j, va[j], f)
            if not close(vb[j], f, sc):
                return "evaluate_derivs(%r) value[%d] = %r, expected %r" % (r, j, vb[j], f)
            if not close(db[j], g, sc / c["h"], 1e-8):
                return "evaluate_derivs(%r) deriv[%d] = %r, expected %r" % (r, j, db[j], g)
        if np.any(va[m:] != 7.25e3 + k) or np.any(vb[m:] != -3.5e3 - k) or np.any(db[m:] != 11.0 + k):
            return "entries beyond the %d components were written at r=%r" % (m, r)


# ------------------------------------------------------------------------------------------------ ZBL
DK = (3.2, 0.9423, 0.4028, 0.2016)


def env(u, p):
    return (1 - (p + 1) * (p + 2) / 2 * u ** p + p * (p + 2) * u ** (p + 1) - p * (p + 1) / 2 * u ** (p + 2))


def denv(u, p):
    return -p * (p + 1) * (p + 2) / 2 * u ** (p - 1) * (1 - u) ** 2


def zbl_pair(c, zu, zv, r):
    """energy, gradient, scale"""
    a = 0.529 * c["apre"] / (zu ** c["aexp"] + zv ** c["aexp"])
    ks = 0.5 * 14.3996 * zu * zv
    ph = sum(ck * math.exp(-d * r / a) for ck, d in zip(c["c"], DK))
    dph = sum(-d / a * ck * math.exp(-d * r / a) for ck, d in zip(c["c"], DK))
    aph = sum(abs(ck) * math.exp(-d * r / a) * (1 + d / a) for ck, d in zip(c["c"], DK))
    Rm = c["rad"][zu] + c["rad"][zv]
    if r >= Rm:
        return 0.0, 0.0, 0.0
    u = r / Rm
    p = c["p"]
    e = ks / r * ph * env(u, p)
    g = ks * ((dph / r - ph / r ** 2) * env(u, p) + ph / r * denv(u, p) / Rm)
    return e, g, ks * aph * (1 / r + 1 / r ** 2) * (1 + p ** 3 / Rm)


def gen_zbl(R):
    nz = R.size(3, 20, 118)
    c = dict(aexp=R.pick([0.23, 0.3, R.u(0.05, 1.0), 1.0]), apre=R.pick([0.8854, 0.4543, R.u(0.2, 2), 1.0]),
             c=R.pick([[0.1818, 0.5099, 0.2802, 0.02817], [R.u(0, 1) for _ in range(4)]]),
             rad=[0.2] + [R.u(0.2, 2.5) for _ in range(nz)], p=R.size(2, 9, 12))
    c["p"] = max(2, c["p"])
    qs = []
    for _ in range(6):
        zu, zv = R.n(1, nz), R.n(1, nz)
        if R.coin(0.2):
            zv = zu
        if R.ints and R.coin(0.2):
            k = R.pick(R.ints)
            zu = k if 1 <= k <= nz else zu
        Rm = c["rad"][zu] + c["rad"][zv]
        u = R.pick([R.u(0.05, 1), R.u(0.9, 1), 1.0, R.u(1, 3), R.u(1e-3, 0.05), 1 + 1e-9, 1.01])
        r = Rm * u if u != 1.0 else Rm
        if R.reals and R.coin(0.15):
            r = R.pick(R.reals) or r
        qs.append([zu, zv, r])
    c["q"] = qs
    return c


def mkz(c):
    return mod().ZBL(c["aexp"], c["apre"], c["c"], c["rad"], c["p"])


class _Zbl(Multi):
    def sub(self, R):
        return gen_zbl(R)

    def nq(self, c):
        return len(c["q"])

    def make(self, c):
        return mkz(c)

    def relate(self, R, subs):
        """same elements and distances, one parameter different"""
        a, b = subs
        keep = R.pick(["aexp", "apre", "c", "p"])
        for k in a:
            if k != keep:
                b[k] = a[k]


@prop("C05")
class _C05(_Zbl):
    def check(self, z, c, q):
        zu, zv, r = c["q"][q]
        e, g, sc = zbl_pair(c, zu, zv, r)
        v, w = z.compute(zu, zv, r), z.compute(zv, zu, r)
        if r >= c["rad"][zu] + c["rad"][zv] and (v != 0 or w != 0):
            return "compute(%d,%d,%r) = %r beyond the sum of radii" % (zu, zv, r, v)
        if not close(v, e, sc) or not close(w, e, sc):
            return "compute(%d,%d,%r) = %r, exchanged %r, formula %r" % (zu, zv, r, v, w, e)


@prop("C06")
class _C06(_Zbl):
    def check(self, z, c, q):
        zu, zv, r = c["q"][q]
        e, g, sc = zbl_pair(c, zu, zv, r)
        Rm = c["rad"][zu] + c["rad"][zv]
        v = z.compute_gradient(zu, zv, r)
        if (r >= Rm and v != 0) or not close(v, g, sc, 1e-9):
            return "compute_gradient(%d,%d,%r) = %r, derivative %r" % (zu, zv, r, v, g)
        for p in (c["p"], c["p"] + 1):
            ev = z.compute_envelope_gradient(r, Rm, p)
            want = denv(r / Rm, p) / Rm if r < Rm else 0.0
            if (r >= Rm and ev != 0) or not close(ev, want, p ** 3 / Rm, 1e-9):
                return "compute_envelope_gradient(%r,%r,%d) = %r, derivative %r" % (r, Rm, p, ev, want)
        # the pair energy itself, in case only the energy drifted
        if 0.02 * Rm < r < 0.98 * Rm:
            hh = 1e-4 * r
            fd = (z.compute(zu, zv, r + hh) - z.compute(zu, zv, r - hh)) / (2 * hh)
            if not close(v, fd, sc, 1e-4):
                return "compute_gradient(%d,%d,%r) = %r but the energy's slope there is %r" % (zu, zv, r, v, fd)
            fe = (z.compute_envelope(r + hh, Rm, c["p"]) - z.compute_envelope(r - hh, Rm, c["p"])) / (2 * hh)
            ev = z.compute_envelope_gradient(r, Rm, c["p"])
            if not close(ev, fe, c["p"] ** 3 / Rm, 1e-4):
                return "compute_envelope_gradient(%r,%r,%d) = %r but the envelope's slope is %r" % (r, Rm, c["p"], ev, fe)


@prop("C07")
class _C07(_Zbl):
    def sub(self, R):
        c = gen_zbl(R)
        c["R"] = R.pick([R.u(0.2, 8), 1.0, 10 ** R.u(-2, 2)] + ([max(R.pick(R.reals), 0.01)] if R.reals else []))
        c["us"] = sorted([0.0, 1.0, 1.5, 0.999, 0.99, 1 - 1e-6] + [R.u(0, 1) for _ in range(12)]
                         + [v for v in (1 - x for x in R.reals) if 0 < v < 1][:6] + [x for x in R.reals if x < 1][:6])
        return c

    def nq(self, c):
        return 1

    def check(self, z, c, q):
        Rm, p = c["R"], c["p"]
        last = None
        for u in c["us"]:
            r = Rm * u if u != 1.0 else Rm
            v, g = z.compute_envelope(r, Rm, p), z.compute_envelope_gradient(r, Rm, p)
            tol = 1e-11 * p ** 3
            if u == 0 and abs(v - 1) > tol:
                return "compute_envelope(0,%r,%d) = %r" % (Rm, p, v)
            if r >= Rm and (v != 0 or g != 0):
                return "compute_envelope(%r,%r,%d) = %r, slope %r beyond the cutoff" % (r, Rm, p, v, g)
            if v < -tol or v > 1 + tol:
                return "compute_envelope(%r,%r,%d) = %r outside [0,1]" % (r, Rm, p, v)
            if r < Rm and abs(v - env(u, p)) > tol:
                return "compute_envelope(%r,%r,%d) = %r, expected %r" % (r, Rm, p, v, env(u, p))
            if last is not None and v > last + tol:
                return "compute_envelope increases up to r=%r (R=%r, p=%d)" % (r, Rm, p)
            if g * Rm > tol * p:
                return "envelope slope %r > 0 at r=%r" % (g, r)
            if abs(g * Rm - (denv(u, p) if r < Rm else 0)) > tol * p:
                return "envelope slope %r at r=%r, expected %r" % (g, r, denv(u, p) / Rm)
            last = v


@prop("C08")
class _C08(_Zbl):
    def nq(self, c):
        return 1

    def relate(self, R, subs):
        pass

    def sub(self, R):
        c = gen_zbl(R)
        nz = len(c["rad"]) - 1
        ne = R.n(1, min(5, nz))
        Z = [R.n(1, nz) for _ in range(ne)]
        N = R.size(0, 6, 70)
        types = [R.n(0, ne - 1) for _ in range(N)]
        nn = [R.pick([0, 0, R.n(0, 3), R.n(0, 9)]) for _ in range(N)]
        if R.coin(0.1) and N:
            nn[R.n(0, N - 1)] = R.size(0, 40, 70)
        P = sum(nn)
        nt, rr, xyz = [], [], []
        for i in range(N):
            for _ in range(nn[i]):
                t = R.n(0, ne - 1)
                nt.append(t)
                Rm = c["rad"][Z[types[i]]] + c["rad"][Z[t]]
                r = Rm * R.pick([R.u(0.2, 1), R.u(0.2, 1), R.u(1, 2)])
                d = R.g.normal(size=3)
                d *= r / np.linalg.norm(d)
                if R.coin(0.1):
                    d = np.array([0, 0, r])
                rr.append(r)
                xyz += d.tolist()
        c.update(N=N, types=types, nn=nn, nt=nt, Z=Z, r=rr, xyz=xyz, e0=R.xs(N + R.n(0, 2)), f0=R.xs(3 * P + R.n(0, 4)))
        del c["q"]
        return c

    def check(self, z, c, q):
        e, f = mod().zbl_system(z, c["N"], c["types"], c["nn"], c["nt"], c["Z"], c["r"], c["xyz"], c["e0"], c["f0"])
        we, wf = list(c["e0"]), list(c["f0"])
        se, sf = [abs(v) for v in we], [abs(v) for v in wf]
        k = 0
        for i in range(c["N"]):
            for _ in range(c["nn"][i]):
                pe, pg, sc = zbl_pair(c, c["Z"][c["types"][i]], c["Z"][c["nt"][k]], c["r"][k])
                we[i] += pe
                se[i] += sc
                for q in range(3):
                    wf[3 * k + q] -= pg * c["xyz"][3 * k + q] / c["r"][k]
                    sf[3 * k + q] += sc
                k += 1
        for nm, a, b, s in (("node_energies", e, we, se), ("node_forces", f, wf, sf)):
            for i in range(len(b)):
                if not close(a[i], b[i], s[i] + 1e-12):
                    return "%s[%d] = %r, expected %r" % (nm, i, a[i], b[i])


# ------------------------------------------------------------------------------------------------ perceptron
def silu(x):
    return x / (1 + np.exp(-np.clip(x, -700, 700)))


def dsilu(x):
    s = 1 / (1 + np.exp(-np.clip(x, -700, 700)))
    return s + x * s * (1 - s)


def mlp_ref(c, x):
    """outputs, Jacobian, and error scales"""
    sh, s = c["shape"], c["s"]
    Ws = [np.array(w, float).reshape(sh[i + 1], sh[i]) for i, w in enumerate(c["W"])]
    a, sa = np.array(x, float), np.abs(np.array(x, float))
    J, sJ = np.eye(sh[0]), np.eye(sh[0])
    for l, W in enumerate(Ws):
        pre, sp = W @ a, np.abs(W) @ sa
        J, sJ = W @ J, np.abs(W) @ sJ
        if l < len(Ws) - 1:
            a, sa = s * silu(pre), abs(s) * 1.1 * sp
            J, sJ = (s * dsilu(pre))[:, None] * J, abs(s) * (1.1 + sp[:, None]) * sJ
        else:
            a, sa = pre, sp
    return a, J, sa + 1e-300, sJ + 1e-300


def gen_mlp(R, methods):
    L = R.pick([2, 2, 3, 3, 3, 4, 4, 5, R.n(2, 8)])
    sh = [R.size(1, 5, 40, 0.08) for _ in range(L)]
    if R.coin(0.2):
        sh = [sh[0]] * L
    if R.coin(0.2):
        sh[R.n(0, L - 1)] = 1
    w = R.pick([1.0, 1.0, 0.3, 3.0])
    c = dict(shape=sh, s=R.pick([1.0, 1.6790, R.x(), R.u(0.1, 3), 0.0, -1.0]), calls=[])
    c["W"] = [R.xs(sh[i] * sh[i + 1], w) for i in range(L - 1)]
    if R.coin(0.1):
        c["W"][R.n(0, L - 2)] = [0.0] * len(c["W"][0]) if L == 2 else c["W"][R.n(0, L - 2)]
        c["W"] = [R.xs(sh[i] * sh[i + 1], w) if len(x) != sh[i] * sh[i + 1] else x for i, x in enumerate(c["W"])]
    base = [R.xs(sh[0], R.pick([1, 1, 1, 20])) for _ in range(R.n(1, 3))]
    for _ in range(R.n(2, 7)):
        m = R.pick(methods)
        b = None
        if m.endswith("batch"):
            b = R.size(0, 5, 40, 0.08)
        rows = [R.pick(base) if R.coin(0.3) else R.xs(sh[0], R.pick([1, 1, 1, 20])) for _ in range(1 if b is None else b)]
        if b and R.coin(0.2):
            rows = [rows[0]] * b
        c["calls"].append([m, b, sum(rows, [])])
    return c


class _Mlp(Multi):
    methods = ("evaluate", "evaluate_gradient")
    parts = "vg"
    fresh = False

    def sub(self, R):
        return gen_mlp(R, self.methods)

    def nq(self, c):
        return len(c["calls"])

    def relate(self, R, subs):
        a, b = subs
        b["shape"] = a["shape"]
        sh = a["shape"]
        b["W"] = R.pick([a["W"], [R.xs(sh[i] * sh[i + 1]) for i in range(len(sh) - 1)]])
        b["calls"] = a["calls"]

    def make(self, c):
        return mod().MultilayerPerceptron(c["shape"], c["W"], c["s"])

    def check(self, o, c, q):
        m, b, x = c["calls"][q]
        n0, no = c["shape"][0], c["shape"][-1]
        objs = [(o, "")] + ([(self.make(c), " on a fresh object")] if self.fresh else [])
        for ob, lab in objs:
            r = getattr(ob, m)(x) if b is None else getattr(ob, m)(x, b)
            v, g = (r, None) if "gradient" not in m else r
            nb = 1 if b is None else b
            if len(v) != nb * no or (g is not None and len(g) != nb * no * n0):
                return "%s%s: %d values and %s gradient entries for %d samples of %d outputs" % (m, lab, len(v), g and len(g), nb, no)
            for s in range(nb):
                a, J, sa, sJ = mlp_ref(c, x[s * n0:(s + 1) * n0])
                if "v" in self.parts and not close(v[s * no:(s + 1) * no], a, sa):
                    return "%s%s sample %d value %r, expected %r" % (m, lab, s, v[s * no:(s + 1) * no][:6], a.tolist()[:6])
                if g is not None and "g" in self.parts:
                    G = np.array(g[s * no * n0:(s + 1) * no * n0]).reshape(no, n0)
                    if not close(G, J, sJ, 1e-8):
                        return "%s%s sample %d gradient %r, expected %r" % (m, lab, s, G.tolist()[:4], J.tolist()[:4])


@prop("C09")
class _C09(_Mlp):
    parts = "v"


@prop("C10")
class _C10(_Mlp):
    methods = ("evaluate_gradient", "evaluate_gradient", "evaluate")


@prop("C11")
class _C11(_Mlp):
    methods = ("evaluate_batch", "evaluate_gradient_batch")

    def check(self, o, c, q):
        e = _Mlp.check(self, o, c, q)
        if e:
            return e
        m, b, x = c["calls"][q]
        n0, no = c["shape"][0], c["shape"][-1]
        o1, o2 = self.make(c), self.make(c)
        r = getattr(o1, m)(x, b)
        v = np.array(r if "gradient" not in m else r[0])
        for s in range(b):
            row = x[s * n0:(s + 1) * n0]
            a, J, sa, sJ = mlp_ref(c, row)
            if not close(v[s * no:(s + 1) * no], o2.evaluate(row), sa):
                return "%s sample %d differs from evaluate of that row" % (m, s)
            if "gradient" in m:
                G = np.array(r[1][s * no * n0:(s + 1) * no * n0])
                if not close(G, o2.evaluate_gradient(row)[1], sJ.ravel(), 1e-8):
                    return "%s sample %d differs from evaluate_gradient of that row" % (m, s)


@prop("C12")
class _C12(_Mlp):
    methods = ("evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_gradient_batch")
    fresh = True


# ------------------------------------------------------------------------------------------------ polynomials
def poly_ref(c, x):
    n = c["n"]
    f, g, sf, sg = 0.0, np.zeros(n), 1e-300, np.full(n, 1e-300)
    for co, m in zip(c["c"], c["m"]):
        t = co
        for i in m:
            t *= x[i]
        f += t
        sf += abs(t)
        for k in range(len(m)):
            t = co
            for q in range(len(m)):
                if q != k:
                    t *= x[m[q]]
            g[m[k]] += t
            sg[m[k]] += abs(t)
    return f, g, sf, sg


def gen_poly(R, methods):
    n = R.size(1, 5, 12)
    nm = R.size(0, 8, 25)
    maxd = R.pick([1, 2, 3, 4, 4, 5, 6, 7])
    ms = []
    for _ in range(nm):
        if ms and R.coin(0.15):
            ms.append(list(R.pick(ms)))         # repeated monomial
        elif ms and R.coin(0.2):
            m = list(R.pick(ms))                # relatives: prefix / suffix / extension
            k = R.n(0, 2)
            m = m[:-1] if k == 0 else m[1:] if k == 1 else sorted(m + [R.n(0, n - 1)])
            ms.append(m if m else [R.n(0, n - 1)])
        else:
            d = R.size(1, maxd, 8)
            hi = n - 1 if R.coin(0.7) else min(1, n - 1)
            ms.append(sorted(R.n(0, hi) for _ in range(max(1, min(d, 8)))))
    co = R.xs(nm)
    if R.coin(0.3):
        co = [R.pick(co) for _ in co]           # equal coefficients
    c = dict(n=n, m=ms, c=co, calls=[])
    base = [R.xs(n) for _ in range(2)]
    for _ in range(R.n(2, 7)):
        m = R.pick(methods)
        b = R.size(0, 5, 40, 0.1) if m.endswith("batch") else None
        rows = [R.pick(base) if R.coin(0.3) else [0.0 if R.coin(0.15) else v for v in R.xs(n)] for _ in range(1 if b is None else b)]
        c["calls"].append([m, b, sum(rows, [])])
    return c


def poly_structures():
    """every set of up to 3 distinct monomials of degree 1..3 in up to 3 variables, and of degree 1..5 in 2 variables;
    plus single monomials of degree up to 6 in 4 variables"""
    seen = set()
    for n, deg, size in ((1, 4, 3), (2, 5, 3), (3, 3, 3), (4, 6, 1), (4, 2, 2)):
        ms = [m for d in range(1, deg + 1) for m in itertools.combinations_with_replacement(range(n), d)]
        for k in range(0, size + 1):
            for sub in itertools.combinations(ms, k):
                if (n, sub) not in seen:
                    seen.add((n, sub))
                    yield n, sub


class _Poly(Multi):
    methods = ("evaluate", "evaluate_simple")
    parts = "v"
    fresh = False

    def fixed(self):
        ms = sorted(set(self.methods))
        for i, (n, sub) in enumerate(poly_structures()):
            # coefficients and points that separate structures: distinct primes
            order = list(sub)[::-1] if i % 2 else list(sub)
            c = dict(n=n, m=[list(m) for m in order], c=[float(p) for p in (11, 101, 1009)[:len(order)]], calls=[])
            x = [2.0, -3.0, 5.0, 7.0][:n]
            for m in ms:
                c["calls"].append([m, 2, x + [v + 1 for v in x]] if m.endswith("batch") else [m, None, x])
            yield dict(subs=[c], order=[[0, q] for q in range(len(ms))])

    def sub(self, R):
        return gen_poly(R, self.methods)

    def nq(self, c):
        return len(c["calls"])

    def relate(self, R, subs):
        a, b = subs
        b.update(n=a["n"], calls=a["calls"], m=[list(m) for m in a["m"]], c=R.xs(len(a["m"])))
        if R.coin() and b["m"]:
            k = list(range(len(b["m"])))
            R.g.shuffle(k)
            b["m"] = [a["m"][int(i)] for i in k]
            b["c"] = [a["c"][int(i)] for i in k]

    def make(self, c):
        return mod().MultivariatePolynomial(c["n"], c["c"], c["m"])

    def check(self, o, c, q):
        m, b, x = c["calls"][q]
        n = c["n"]
        objs = [(o, "")] + ([(self.make(c), " on a fresh object")] if self.fresh else [])
        for ob, lab in objs:
            r = getattr(ob, m)(x) if b is None else getattr(ob, m)(x, b)
            v, g = r if isinstance(r, tuple) else (r, None)
            if b is None:
                v = [v]
            nb = 1 if b is None else b
            if len(v) != nb or (g is not None and len(g) != nb * n):
                return "%s%s: %d values, %s gradient entries for %d samples" % (m, lab, len(v), g and len(g), nb)
            for s in range(nb):
                f, G, sf, sg = poly_ref(c, x[s * n:(s + 1) * n])
                if not close(v[s], f, sf):
                    return "%s%s sample %d x=%r value %r, expected %r" % (m, lab, s, x[s * n:(s + 1) * n], v[s], f)
                if g is not None and "g" in self.parts and not close(g[s * n:(s + 1) * n], G, sg):
                    return "%s%s sample %d x=%r gradient %r, expected %r" % (m, lab, s, x[s * n:(s + 1) * n], g[s * n:(s + 1) * n], G.tolist())


@prop("C13")
class _C13(_Poly):
    methods = ("evaluate", "evaluate", "evaluate_simple", "evaluate_gradient", "evaluate_batch", "evaluate_gradient_simple")


@prop("C14")
class _C14(_Poly):
    methods = ("evaluate_gradient", "evaluate_gradient", "evaluate_gradient_simple")
    parts = "vg"


@prop("C15")
class _C15(_Poly):
    methods = ("evaluate_batch", "evaluate_batch", "evaluate", "evaluate_gradient")
    parts = "vg"


@prop("C16")
class _C16(_Poly):
    methods = ("evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_simple", "evaluate_gradient_simple")
    parts = "vg"
    fresh = True


# ------------------------------------------------------------------------------------------------ tools
def set_partitions(n):
    """partitions of positions 0..n-1"""
    if n == 0:
        return []
    out = [[[0]]]
    for i in range(1, n):
        new = []
        for p in out:
            new.append([list(b) for b in p] + [[i]])
            for j in range(len(p)):
                q = [list(b) for b in p]
                q[j].append(i)
                new.append(q)
        out = new
    return out


def canon_partition(p):
    return tuple(sorted(tuple(b) for b in p))


@prop("C17")
class _C17:
    def fixed(self):
        out = []
        for n in range(-2, 13):
            for k in range(-2, 15):
                out.append(["binom", n, k])
        for n in range(0, 8):
            out.append(["part", list(range(n))])
            out.append(["two", list(range(n))])
            out.append(["perm", n])
            out.append(["comb", list(range(n)), 2])
            for k in (-1, 0, 1, 3, 4):
                out.append(["comb", list(range(n)), k])
        for n in range(0, 5):
            for k in range(0, 5):
                out.append(["prep", list(range(10, 10 + n)), k])
                out.append(["gen", k, n])
        for n in range(0, 4):
            out.append(["sum", [2 ** i for i in range(n)]])
        out.append(["two", list(range(9))])
        out.append(["part", list(range(9))])
        return out

    def gen(self, R):
        z = R.n(0, 7)
        vec = lambda n: [R.n(-5, 9) if R.coin() else R.n(0, 2) for _ in range(n)]
        if z == 0:
            return ["binom", R.size(-3, 20, 24), R.n(-3, 24)]
        if z == 1:
            return ["sum", [R.n(-100000, 100000) for _ in range(R.size(0, 12, 400))]]
        if z == 2:
            return ["part", vec(R.n(0, 8))]
        if z == 3:
            return ["two", vec(R.size(0, 9, 11))]
        if z == 4:
            return ["comb", vec(R.size(0, 12, 60)), 2 if R.coin(0.8) else R.n(-1, 6)]
        if z == 5:
            n, k = R.n(0, 6), R.n(0, 5)
            return ["prep", vec(n), k]
        if z == 6:
            return ["gen", R.n(0, 5), R.n(0, 6)]
        return ["prod", [vec(R.n(0, 4)) for _ in range(R.n(0, 5))]]

    def run(self, c):
        m, k = mod(), c[0]
        if k == "binom":
            n, r = c[1], c[2]
            want = math.comb(n, r) if 0 <= r <= n else 0
            got = m._binomial_coefficient(n, r)
        elif k == "sum":
            got, want = m._sum(c[1]), sum(c[1])
        elif k in ("part", "two"):
            v = c[1]
            # run on positions (distinct labels) and on the values themselves
            for lab in (list(range(len(v))), v):
                f = m._partitions if k == "part" else m._two_part_partitions
                got = f(lab)
                ps = [p for p in set_partitions(len(v)) if k == "part" or len(p) == 2]
                want = sorted(canon_partition([[lab[i] for i in b] for b in p]) for p in ps)
                g = sorted(canon_partition(p) for p in got)
                if g != want:
                    return "%s(%r): %d partitions, expected %d; first difference %r" % (
                        k, lab, len(g), len(want), next(((x, y) for x, y in itertools.zip_longest(g, want) if x != y), None))
                if k == "part" and [len(p) for p in got] != sorted(len(p) for p in got):
                    return "partitions(%r) not ordered by the number of parts" % (lab,)
            return None
        elif k == "perm":
            got, want = m._permutations(c[1]), [list(p) for p in itertools.permutations(range(c[1]))]
        elif k == "comb":
            if c[2] != 2:
                return None if raises(m._combinations, c[1], c[2]) else "combinations(%r,%d) did not raise" % (c[1], c[2])
            got, want = m._combinations(c[1], 2), [list(p) for p in itertools.combinations(c[1], 2)]
        elif k == "prep":
            got, want = m._product_repeat(c[1], c[2]), [list(p) for p in itertools.product(c[1], repeat=c[2])]
        elif k == "gen":
            got, want = m._generate_indices(c[1], c[2]), [list(p) for p in itertools.product(range(c[2]), repeat=c[1])]
        else:
            got, want = m.product(c[1]), [list(p) for p in itertools.product(*c[1])]
        if got != want:
            return "%s%r = %s, expected %s" % (k, tuple(c[1:]), str(got)[:200], str(want)[:200])
