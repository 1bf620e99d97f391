// Evaluation from Python, assembled in the simulated interpreter: the real
// py/arolla/abc files and py.call, with box/unbox helpers of the harness.
#ifndef VERIF_HARNESS_PYEVAL_H_
#define VERIF_HARNESS_PYEVAL_H_
#include "pyarolla.h"
#include "ops.h"
#include "arolla/qexpr/operators/bootstrap/make_tuple_operator.h"
#include "arolla/qtype/tuple_qtype.h"
#include "py/arolla/abc/py_aux_binding_policy.h"
#include "py/arolla/abc/py_bind.h"
#include "py/arolla/abc/py_compiled_expr.h"
#include "py/arolla/abc/py_eval.h"
#include "py/arolla/abc/py_expr.h"
#include "py/arolla/abc/py_object_qtype.h"
#include "py/arolla/abc/py_operator.h"
#include "py/arolla/abc/py_qtype.h"
#include "py/arolla/abc/py_qvalue.h"
#include "py/arolla/abc/py_qvalue_specialization.h"
#include "py/arolla/abc/py_signature.h"

namespace pyhost {
using namespace arolla::python;

inline PyObject* p_int(PyObject*, PyObject* a) {
  long long v = PyLong_AsLongLong(a);
  if (PyErr_Occurred()) return nullptr;
  return WrapAsPyQValue(arolla::TypedValue::FromValue<int64_t>(v));
}
inline PyObject* p_unint(PyObject*, PyObject* a) {
  auto* v = UnwrapPyQValue(a);
  if (!v) return nullptr;
  auto r = v->As<int64_t>();
  if (!r.ok()) return SetPyErrFromStatus(r.status());
  return PyLong_FromLongLong(*r);
}
inline PyObject* p_obj(PyObject*, PyObject* a) {
  auto r = MakePyObjectQValue(PyObjectPtr::NewRef(a), std::nullopt);
  if (!r.ok()) return SetPyErrFromStatus(r.status());
  return WrapAsPyQValue(*std::move(r));
}
inline PyObject* p_qtype(PyObject*, PyObject* a) {
  auto* v = UnwrapPyQValue(a);
  if (!v) return nullptr;
  return WrapAsPyQValue(arolla::TypedValue::FromValue(v->GetType()));
}
inline PyObject* p_obj_qtype(PyObject*, PyObject*) {
  return WrapAsPyQValue(arolla::TypedValue::FromValue(GetPyObjectQType()));
}
inline PyObject* p_tuple(PyObject*, PyObject* a) {
  std::vector<arolla::TypedRef> f;
  for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(a); ++i) {
    auto* v = UnwrapPyQValue(PyTuple_GET_ITEM(a, i));
    if (!v) return nullptr;
    f.push_back(v->AsRef());
  }
  return WrapAsPyQValue(arolla::MakeTuple(f));
}
inline PyObject* p_literal(PyObject*, PyObject* a) {
  auto* v = UnwrapPyQValue(a);
  if (!v) return nullptr;
  return WrapAsPyExpr(arolla::expr::Literal(*v));
}
inline PyObject* p_leaf(PyObject*, PyObject* a) {
  const char* s = PyUnicode_AsUTF8(a);
  if (!s) return nullptr;
  return WrapAsPyExpr(arolla::expr::Leaf(s));
}

inline void add_type(PyObject* m, const char* name, PyTypeObject* t) {
  if (!t || PyModule_AddObject(m, name, (PyObject*)t) < 0) die(name);
}
inline PyObject* init_eval_clib() {
  PyObject* m = init_abc_clib();
  if (!m) return nullptr;
  static PyMethodDef defs[] = {
      kDefPyInvokeOp, kDefPyEvalExpr, kDefPyAuxEvalOp, kDefPyClearEvalCompileCache,
      kDefPyMakeOperatorNode, kDefPyBindOp, kDefPyAuxBindOp, kDefPyAuxBindArguments, kDefPyAuxGetPythonSignature,
      {"int64", p_int, METH_O, nullptr}, {"unint64", p_unint, METH_O, nullptr},
      {"obj", p_obj, METH_O, nullptr}, {"qtype_of", p_qtype, METH_O, nullptr},
      {"obj_qtype", p_obj_qtype, METH_NOARGS, nullptr}, {"make_tuple", p_tuple, METH_VARARGS, nullptr},
      {"literal", p_literal, METH_O, nullptr}, {"leaf", p_leaf, METH_O, nullptr},
      {nullptr}};
  if (PyModule_AddFunctions(m, defs) < 0) return nullptr;
  add_type(m, "QValue", PyQValueType());
  add_type(m, "QType", PyQTypeType());
  add_type(m, "Expr", PyExprType());
  add_type(m, "CompiledExpr", PyCompiledExprType());
  return m;
}
inline void boot_eval(const char* script, void (*more)() = nullptr) {
  boot(
      [=] {
        arolla::InitArolla();
        ops::Register();
        auto st = arolla::OperatorRegistry::GetInstance()->RegisterOperatorFamily("core.make_tuple", std::make_unique<arolla::MakeTupleOperatorFamily>());
        if (!st.ok()) die("core.make_tuple");
        if (more) more();
        native_module("arolla.abc.clib", init_eval_clib);
        native_module("arolla.experimental._tasks.clib", PyInit_clib);
        run_script(kArolla, "<arolla>");
      },
      script);
}
}  // namespace pyhost
#endif
