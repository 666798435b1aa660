// The repository's own bindings plus direct access to functions they do not export.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "tools.hpp"
#include "zbl.hpp"
namespace py = pybind11;
void bind_cubic_spline(py::module_ &m);
void bind_cubic_spline_set(py::module_ &m);
void bind_multilayer_perceptron(py::module_ &m);
void bind_multivariate_polynomial(py::module_ &m);
void bind_tools(py::module_ &m);
void bind_zbl(py::module_ &m);

PYBIND11_MODULE(vrep, m)
{
    bind_cubic_spline(m);
    bind_cubic_spline_set(m);
    bind_multilayer_perceptron(m);
    bind_multivariate_polynomial(m);
    bind_tools(m);
    bind_zbl(m);
    m.def("product", [](std::vector<std::vector<int>> v) { return _product(v); });
    m.def("zbl_system", [](ZBL& z, int num_nodes, std::vector<int> node_types, std::vector<int> num_neigh,
                           std::vector<int> neigh_types, std::vector<int> atomic_numbers, std::vector<double> r,
                           std::vector<double> xyz, std::vector<double> e, std::vector<double> f) {
        z.compute_ZBL(num_nodes, node_types, num_neigh, neigh_types, atomic_numbers, r, xyz, e, f);
        return std::make_tuple(e, f);
    });
}
