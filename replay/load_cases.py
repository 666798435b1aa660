"""Cases for loading a model file (C25): every member against the file's entries, every part against one built directly."""
import json
import os
import sys
import tempfile

import numpy as np

from cases import D, close, prop
from mace_cases import gen_model, model

vload = None


def mod():
    global vload
    if vload is None:
        sys.path.insert(0, D)
        import vload as v
        vload = v
    return vload


@prop("C25")
class _C25:
    def fixed(self):
        base = dict(nc=2, l=1, L=1, paths=[[0, 0, 0], [1, 1, 0], [1, 0, 1]], ncg=5, h=0.3, nn=6, zbl=True, zp=5, A0s=True, A1s=True, seed=3)
        for n, nc, l, L in ((1, 1, 0, 0), (2, 3, 1, 1), (3, 2, 2, 1), (12, 1, 1, 1), (2, 13, 0, 0), (1, 1, 4, 3)):
            yield dict(base, ne=n, Z=list(range(1, n + 1)), nc=nc, l=l, L=L, paths=[[0, 0, 0]] + ([[1, 1, 0], [1, 0, 1]] if l and L else []))
        yield dict(base, ne=2, Z=[8, 1], zbl=False, A0s=False, A1s=True)
        yield dict(base, ne=2, Z=[8, 1], zbl=True, A0s=True, A1s=False)

    def gen(self, r):
        c = gen_model(r)
        if r.coin(0.3):
            c["Z"] = c["Z"][::-1]
        return c

    def run(self, c):
        f = model(c)
        g = np.random.default_rng(c["seed"] + 1)
        f["readout_2_scale_factor"] = float(g.uniform(0.5, 2))
        f["r_cut"] = float(g.uniform(0.5, 2))
        for k, v in (("zbl_a_exp", 0.31), ("zbl_a_prefactor", 0.77), ("zbl_p", c.get("zp", 6)), ("zbl_c", [0.18, 0.51, 0.28, 0.03])):
            if k in f:
                f[k] = v
        for k in ("A0_spline_h", "A1_spline_h", "radial_spline_h"):
            if k in f:
                f[k] = float(f[k] * g.uniform(0.8, 1.2))
        v = mod()
        fd, p = tempfile.mkstemp(suffix=".json", dir=D)
        try:
            with os.fdopen(fd, "w") as o:
                json.dump(f, o)
            m = v.MACE(p)
        finally:
            os.unlink(p)
        got = v.plain(m)
        want = {k: f[k] for k in got if k in f}
        ne, nc = len(f["atomic_numbers"]), f["num_channels"]
        lm, LM = (f["l_max"] + 1) ** 2, (f["L_max"] + 1) ** 2
        want.update(num_lm=lm, num_LM=LM, num_lme=sum(2 * l + 1 for l in f["Phi1_l"]),
                    num_lelm1lm2=sum((2 * a + 1) * (2 * b + 1) for a, b in zip(f["Phi1_l1"], f["Phi1_l2"])))
        npair = len(f["radial_spline_values_0"])
        want["counts"] = [npair, npair, npair if f["A0_scaled"] else 0, npair if f["A1_scaled"] else 0, ne * LM * nc, ne * nc]
        for k in want:
            if got[k] != want[k]:
                return "%s is %s after loading, the file gives %s" % (k, str(got[k])[:150], str(want[k])[:150])
        x = g.normal(size=lm).tolist()

        def cmp(what, a, b):
            if not close(a, b, np.abs(np.asarray(b, float)) + 1, 1e-9):
                return "%s evaluates to %s, built from its file entries it gives %s" % (what, str(a)[:200], str(b)[:200])
        for q, (W, M) in enumerate(((f["M0_weights"], f["M0_monomials"]), (f["M1_weights"], f["M1_monomials"]))):
            for a in range(ne):
                for l in range(1 if q else LM):
                    for k in range(nc):
                        w, mo = (W[str(a)][str(k)], M) if q else (W[str(a)][str(l)][str(k)], M[str(l)])
                        i = a * nc + k if q else (a * LM + l) * nc + k
                        e = cmp("polynomial P%d[%d] (element %d, component %d, channel %d)" % (q, i, a, l, k), v.poly(m, q, i, x), v.ref_poly(lm, w, mo, x))
                        if e:
                            return e
        for i in range(npair):
            for q in (0, 1):
                h = f["radial_spline_h"]
                vs, ds = f["radial_spline_values_%d" % q][i], f["radial_spline_derivs_%d" % q][i]
                r = float(h * g.uniform(0, len(vs[0]) - 1.01))
                e = cmp("radial table %d of layer %d at r=%r" % (i, q, r), v.set(m, q, i, len(vs), r), v.ref_set(h, vs, ds, r))
                if not e and f["A%d_scaled" % q]:
                    h = f["A%d_spline_h" % q]
                    vs, ds = f["A%d_spline_values" % q][i], f["A%d_spline_derivs" % q][i]
                    r = float(h * g.uniform(0, len(vs) - 1.01))
                    e = cmp("scaling table %d of layer %d at r=%r" % (i, q, r), v.scale(m, q, i, r), v.ref_scale(h, vs, ds, r))
                if e:
                    return e
        if f["has_zbl"]:
            e = cmp("zbl", v.zbl(m), v.ref_zbl(f["zbl_a_exp"], f["zbl_a_prefactor"], f["zbl_c"], f["zbl_covalent_radii"], f["zbl_p"]))
            if e:
                return e
        y = g.normal(size=nc).tolist()
        return cmp("readout_2", v.readout(m, y), v.ref_readout(nc, f["readout_2_weights_1"], f["readout_2_weights_2"], f["readout_2_scale_factor"], y))
