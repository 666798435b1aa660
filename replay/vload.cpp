// The loaded model as it is in memory (members and what its parts evaluate to), and the same parts built directly.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "mace.hpp"
namespace py = pybind11;
using V = std::vector<double>;
using VV = std::vector<V>;

static V eval_set(CubicSplineSet& s, size_t m, double r) {
    V v(m), d(m);
    s.evaluate_derivs(r, v, d);
    v.insert(v.end(), d.begin(), d.end());
    return v;
}
static V eval_one(CubicSpline& s, double r) {
    auto [v, d] = s.evaluate_deriv(r);
    return {v, d};
}
static V eval_zbl(ZBL& z) {
    V out;
    for (int a : {1, 6, 8, 26})
        for (int b : {1, 7, 29})
            for (double r : {0.3, 0.7, 0.9}) {
                out.push_back(z.compute(a, b, r));
                out.push_back(z.compute_gradient(a, b, r));
            }
    return out;
}

PYBIND11_MODULE(vload, m) {
    py::class_<MACE>(m, "MACE").def(py::init<std::string>());
    m.def("plain", [](MACE& o) {
        py::dict d;
#define K(x) d[#x] = o.x;
        K(num_elements) K(num_channels) K(r_cut) K(l_max) K(L_max) K(num_lm) K(num_LM) K(atomic_numbers) K(atomic_energies)
        K(has_zbl) K(A0_scaled) K(A1_scaled) K(H0_weights) K(A0_weights) K(H1_weights) K(Phi1_l) K(Phi1_l1) K(Phi1_l2) K(Phi1_lme)
        K(Phi1_clebsch_gordan) K(Phi1_lelm1lm2) K(num_lme) K(num_lelm1lm2) K(A1_weights) K(H2_weights_for_H1) K(H2_weights_for_M1)
        K(readout_1_weights)
#undef K
        d["counts"] = std::vector<size_t>{o.spl_set_0.size(), o.spl_set_1.size(), o.A0_splines.size(), o.A1_splines.size(), o.P0.size(), o.P1.size()};
        return d;
    });
    m.def("poly", [](MACE& o, int q, size_t i, V x) { return (q ? o.P1 : o.P0).at(i).evaluate(x); });
    m.def("ref_poly", [](int n, V w, std::vector<std::vector<int>> mono, V x) { return MultivariatePolynomial(n, w, mono).evaluate(x); });
    m.def("set", [](MACE& o, int q, size_t i, size_t k, double r) { return eval_set(*(q ? o.spl_set_1 : o.spl_set_0).at(i), k, r); });
    m.def("ref_set", [](double h, VV v, VV d, double r) { CubicSplineSet s(h, v, d); return eval_set(s, v.size(), r); });
    m.def("scale", [](MACE& o, int q, size_t i, double r) { return eval_one((q ? o.A1_splines : o.A0_splines).at(i), r); });
    m.def("ref_scale", [](double h, V v, V d, double r) { CubicSpline s(h, v, d); return eval_one(s, r); });
    m.def("zbl", [](MACE& o) { return eval_zbl(o.zbl); });
    m.def("ref_zbl", [](double e, double p, V c, V rad, int k) { ZBL z(e, p, c, rad, k); return eval_zbl(z); });
    m.def("readout", [](MACE& o, V x) { return o.readout_2->evaluate(x); });
    m.def("ref_readout", [](int n, V a, V b, double s, V x) { return MultilayerPerceptron({n, 16, 1}, {a, b}, s).evaluate(x); });
}
