// The repository's bindings of the full model (mace.cpp), with the stand-in for sphericart.
#include <pybind11/pybind11.h>
namespace py = pybind11;
void bind_mace(py::module_ &m);
PYBIND11_MODULE(vmace, m) { bind_mace(m); }
