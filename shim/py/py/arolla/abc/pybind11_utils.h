// Stand-in: only the reference-stealing helper (the rest of the real header
// concerns expressions and values).
#ifndef VERIF_SHIM_PYBIND11_UTILS_H_
#define VERIF_SHIM_PYBIND11_UTILS_H_
#include <Python.h>
#include "pybind11/pybind11.h"
namespace arolla::python {
template <typename T>
T pybind11_steal_or_throw(PyObject* o) {
  if (o == nullptr) throw pybind11::error_already_set();
  return pybind11::reinterpret_steal<T>(o);
}
template <typename T>
T pybind11_steal_or_throw(PyTypeObject* o) {
  return pybind11_steal_or_throw<T>(reinterpret_cast<PyObject*>(o));
}
}  // namespace arolla::python
#endif
