// In-place operations of the C++ interface, callable from the simulated programs.
// Compiled into the instrumented extension; not part of the library.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "algebra/expression.h"
#include "algebra/term.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"

namespace py = pybind11;

template <class X> void in_place(py::module &m, const char *p) {
  std::string s(p);
  m.def((s + "iadd").c_str(), [](X &a, const X &b) { a += b; });
  m.def((s + "isub").c_str(), [](X &a, const X &b) { a -= b; });
  m.def((s + "imul").c_str(), [](X &a, const X &b) { a *= b; });
  m.def((s + "iscale").c_str(), [](X &a, scalar_t f) { a *= f; });
  m.def((s + "idiv").c_str(), [](X &a, scalar_t f) { a /= f; });
}

void export_simapi(py::module &m) {
  in_place<Expression>(m, "e_");
  in_place<OperatorExpression>(m, "oe_");
}

extern "C" __attribute__((visibility("default"))) PyObject *pybind11_simapi() {
  py::gil_scoped_acquire gil;
  auto m = py::reinterpret_steal<py::module>(PyModule_New("simapi"));
  export_simapi(m);
  return m.release().ptr();
}
