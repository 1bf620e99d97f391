// A small stand-in for pybind11: the parts of its interface that the task and
// cancellation bindings use, over the C API.  Every reference count change
// checks that the calling thread holds the GIL.
#ifndef VERIF_SHIM_PYBIND11_H_
#define VERIF_SHIM_PYBIND11_H_
#include <Python.h>

#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

#include "sim.h"

namespace pybind11 {

inline void shim_gil() {
  if (sim_active() && !PyGILState_Check()) sim_fail("python-without-gil", "Python object touched by a thread that does not hold the GIL");
}

class error_already_set : public std::exception {
 public:
  error_already_set() : ex_(PyErr_GetRaisedException()) {}
  error_already_set(const error_already_set& o) : ex_(Py_XNewRef(o.ex_)) {}
  ~error_already_set() override { shim_gil(); Py_XDECREF(ex_); }
  void restore() { PyErr_SetRaisedException(ex_); ex_ = nullptr; }
  const char* what() const noexcept override { return "python error"; }
 private:
  PyObject* ex_;
};

class object;
class handle {
 public:
  handle() = default;
  handle(std::nullptr_t) {}
  template <typename T, std::enable_if_t<std::is_same_v<std::remove_cv_t<T>, PyObject*>, int> = 0>
  handle(T p) : ptr_(p) {}
  PyObject* ptr() const { return ptr_; }
  const handle& inc_ref() const& { if (ptr_) { shim_gil(); Py_INCREF(ptr_); } return *this; }
  const handle& dec_ref() const& { if (ptr_) { shim_gil(); Py_DECREF(ptr_); } return *this; }
  bool is_none() const { return ptr_ == Py_None; }
  bool is(handle o) const { return ptr_ == o.ptr_; }
  explicit operator bool() const { return ptr_ != nullptr; }
  bool operator==(const handle& o) const { return ptr_ == o.ptr_; }
  bool operator!=(const handle& o) const { return ptr_ != o.ptr_; }
  object attr(const char* name) const;
  template <typename... A>
  object operator()(A&&... a) const;
 protected:
  PyObject* ptr_ = nullptr;
};

class object : public handle {
 public:
  struct stolen_t {};
  struct borrowed_t {};
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.ptr_ = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) { object t(o); std::swap(ptr_, t.ptr_); return *this; }
  object& operator=(object&& o) noexcept {
    if (this != &o) { handle t(*this); ptr_ = o.ptr_; o.ptr_ = nullptr; t.dec_ref(); }
    return *this;
  }
  handle release() { handle t(*this); ptr_ = nullptr; return t; }
};
template <typename T> T reinterpret_borrow(handle h) { return {h, object::borrowed_t{}}; }
template <typename T> T reinterpret_steal(handle h) { return {h, object::stolen_t{}}; }

#define SHIM_PYOBJ(NAME, BASE)                                          \
  class NAME : public BASE {                                            \
   public:                                                              \
    NAME() = default;                                                   \
    NAME(handle h, borrowed_t t) : BASE(h, t) {}                        \
    NAME(handle h, stolen_t t) : BASE(h, t) {}                          \
    NAME(const object& o) : BASE(o, borrowed_t{}) {}                    \
    NAME(object&& o) : BASE(o.release(), stolen_t{}) {}                 \
  };
SHIM_PYOBJ(function, object)
SHIM_PYOBJ(type, object)
SHIM_PYOBJ(str, object)
SHIM_PYOBJ(dict, object)
SHIM_PYOBJ(tuple, object)
SHIM_PYOBJ(list, object)
SHIM_PYOBJ(args, object)
SHIM_PYOBJ(kwargs, object)
class none : public object {
 public:
  none() : object(Py_None, borrowed_t{}) {}
};

class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;
 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;
 private:
  PyGILState_STATE s_;
};

// ------------------------------------------------------------ conversions
struct shim_class { PyTypeObject* type; void (*destroy)(void*); };
inline std::unordered_map<std::type_index, shim_class>& shim_classes() {
  static auto* m = new std::unordered_map<std::type_index, shim_class>;
  return *m;
}
struct shim_instance { PyObject_HEAD; void* value; void (*destroy)(void*); };

template <typename T>
object shim_to_py(T&& v) {
  using U = std::decay_t<T>;
  if constexpr (std::is_base_of_v<handle, U>) {
    if constexpr (std::is_base_of_v<object, U>) return object(std::forward<T>(v));
    else return object(v, object::borrowed_t{});
  } else if constexpr (std::is_same_v<U, bool>) {
    return object(PyBool_FromLong(v), object::stolen_t{});
  } else if constexpr (std::is_integral_v<U>) {
    return object(PyLong_FromLongLong(v), object::stolen_t{});
  } else if constexpr (std::is_floating_point_v<U>) {
    return object(PyFloat_FromDouble(v), object::stolen_t{});
  } else if constexpr (std::is_convertible_v<U, std::string>) {
    std::string s = v;
    return object(PyUnicode_FromStringAndSize(s.data(), s.size()), object::stolen_t{});
  } else {
    auto it = shim_classes().find(typeid(U));
    if (it == shim_classes().end()) throw std::runtime_error("shim: unregistered return type");
    PyObject* o = it->second.type->tp_alloc(it->second.type, 0);
    if (!o) throw error_already_set();
    ((shim_instance*)o)->value = new U(std::forward<T>(v));
    ((shim_instance*)o)->destroy = it->second.destroy;
    return object(o, object::stolen_t{});
  }
}
struct shim_bad_arg : std::exception {};
template <typename A>
struct shim_arg {  // value holder + conversion
  using U = std::decay_t<A>;
  using H = std::conditional_t<std::is_base_of_v<handle, U>, U,
            std::conditional_t<std::is_arithmetic_v<U> || std::is_same_v<U, std::string>, U, U*>>;
  H v{};
  explicit shim_arg(PyObject* o) {
    if constexpr (std::is_base_of_v<object, U>) {
      if (std::is_same_v<U, function> && !PyCallable_Check(o)) throw shim_bad_arg();
      v = reinterpret_borrow<U>(o);
    } else if constexpr (std::is_base_of_v<handle, U>) {
      v = handle(o);
    } else if constexpr (std::is_same_v<U, bool>) {
      v = PyObject_IsTrue(o) == 1;
    } else if constexpr (std::is_integral_v<U>) {
      v = (U)PyLong_AsLongLong(o);
      if (PyErr_Occurred()) { PyErr_Clear(); throw shim_bad_arg(); }
    } else if constexpr (std::is_floating_point_v<U>) {
      v = (U)PyFloat_AsDouble(o);
      if (PyErr_Occurred()) { PyErr_Clear(); throw shim_bad_arg(); }
    } else if constexpr (std::is_same_v<U, std::string>) {
      const char* s = PyUnicode_AsUTF8(o);
      if (!s) { PyErr_Clear(); throw shim_bad_arg(); }
      v = s;
    } else {
      auto it = shim_classes().find(typeid(U));
      if (it == shim_classes().end() || !PyObject_TypeCheck(o, it->second.type)) throw shim_bad_arg();
      v = (U*)((shim_instance*)o)->value;
      if (!v) throw shim_bad_arg();
    }
  }
  decltype(auto) get() {
    if constexpr (std::is_pointer_v<H>) return (*v);
    else if constexpr (std::is_lvalue_reference_v<A>) return (v);
    else return std::move(v);
  }
};

struct arg_v;
struct arg {
  const char* name;
  explicit constexpr arg(const char* n) : name(n) {}
  template <typename T> arg_v operator=(T&& v) const;
};
struct arg_v { std::string name; object value; };
template <typename T> arg_v arg::operator=(T&& v) const { return {name, shim_to_py(std::forward<T>(v))}; }

// ------------------------------------------------------------ functions
struct shim_function {
  std::string name;
  std::vector<std::string> names;   // may be shorter than arity
  std::vector<object> defaults;     // parallel to names; null = required
  size_t arity = 0;
  std::function<PyObject*(PyObject**)> call;
  PyMethodDef def{};
};
inline PyObject* shim_dispatch(PyObject* cap, PyObject* a, PyObject* k) {
  auto* f = (shim_function*)PyCapsule_GetPointer(cap, "shim");
  std::vector<PyObject*> v(f->arity, nullptr);
  size_t n = PyTuple_GET_SIZE(a);
  auto bad = [&](const char* why) {
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (%s)", f->name.c_str(), why);
    return (PyObject*)nullptr;
  };
  if (n > f->arity) return bad("too many");
  for (size_t i = 0; i < n; ++i) v[i] = PyTuple_GET_ITEM(a, i);
  size_t off = f->arity - f->names.size();  // methods: `self` has no name
  if (k) {
    PyObject *key, *val;
    Py_ssize_t pos = 0;
    while (PyDict_Next(k, &pos, &key, &val)) {
      const char* s = PyUnicode_AsUTF8(key);
      size_t j = 0;
      while (j < f->names.size() && f->names[j] != s) ++j;
      if (j == f->names.size() || v[off + j]) return bad("keyword");
      v[off + j] = val;
    }
  }
  for (size_t i = 0; i < f->arity; ++i)
    if (!v[i] && i >= off && f->defaults[i - off]) v[i] = f->defaults[i - off].ptr();
  for (auto* p : v) if (!p) return bad("missing");
  try {
    return f->call(v.data());
  } catch (error_already_set& e) {
    e.restore();
  } catch (shim_bad_arg&) {
    return bad("type");
  } catch (std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  }
  return nullptr;
}
inline void shim_capsule_free(PyObject* cap) { delete (shim_function*)PyCapsule_GetPointer(cap, "shim"); }
template <typename R, typename... A, typename F, size_t... I>
std::function<PyObject*(PyObject**)> shim_caller(F f, R (*)(A...), std::index_sequence<I...>) {
  auto p = std::make_shared<F>(std::move(f));
  return [p](PyObject** v) -> PyObject* {
    std::tuple<shim_arg<A>...> t{shim_arg<A>(v[I])...};
    (void)t;
    if constexpr (std::is_void_v<R>) {
      (*p)(std::get<I>(t).get()...);
      Py_RETURN_NONE;
    } else {
      return shim_to_py((*p)(std::get<I>(t).get()...)).release().ptr();
    }
  };
}
template <typename T> struct shim_sig : shim_sig<decltype(&T::operator())> {};
template <typename C, typename R, typename... A> struct shim_sig<R (C::*)(A...) const> { using fn = R (*)(A...); static constexpr size_t n = sizeof...(A); };
template <typename C, typename R, typename... A> struct shim_sig<R (C::*)(A...)> { using fn = R (*)(A...); static constexpr size_t n = sizeof...(A); };
template <typename R, typename... A> struct shim_sig<R (*)(A...)> { using fn = R (*)(A...); static constexpr size_t n = sizeof...(A); };

template <typename F>
object shim_make(const char* name, F f, std::vector<arg_v> extra = {}) {
  auto* r = new shim_function;
  r->name = name;
  for (auto& e : extra) { r->names.push_back(e.name); r->defaults.push_back(e.value); }
  using S = shim_sig<std::decay_t<F>>;
  r->arity = S::n;
  r->call = shim_caller(std::move(f), (typename S::fn) nullptr, std::make_index_sequence<S::n>());
  r->def.ml_name = strdup(name);
  r->def.ml_meth = (PyCFunction)(void*)shim_dispatch;
  r->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
  PyObject* cap = PyCapsule_New(r, "shim", shim_capsule_free);
  PyObject* o = PyCFunction_New(&r->def, cap);
  Py_DECREF(cap);
  return object(o, object::stolen_t{});
}
inline arg_v shim_extra(arg a) { return {a.name, object()}; }
inline arg_v shim_extra(arg_v a) { return a; }

class cpp_function : public function {
 public:
  cpp_function() = default;
  template <typename F, std::enable_if_t<!std::is_base_of_v<handle, std::decay_t<F>>, int> = 0>
  cpp_function(F&& f) : function(shim_make("cpp_function", std::forward<F>(f))) {}
};

inline object handle::attr(const char* name) const {
  PyObject* r = PyObject_GetAttrString(ptr_, name);
  if (!r) throw error_already_set();
  return object(r, object::stolen_t{});
}
template <typename... A>
object handle::operator()(A&&... a) const {
  std::vector<object> pos;
  PyObject* kw = nullptr;
  auto add = [&](auto&& x) {
    using U = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<U, arg_v>) {
      if (!kw) kw = PyDict_New();
      PyDict_SetItemString(kw, x.name.c_str(), x.value.ptr());
    } else {
      pos.push_back(shim_to_py(std::forward<decltype(x)>(x)));
    }
  };
  (void)add;
  (add(std::forward<A>(a)), ...);
  PyObject* t = PyTuple_New(pos.size());
  for (size_t i = 0; i < pos.size(); ++i) PyTuple_SET_ITEM(t, i, pos[i].release().ptr());
  PyObject* r = PyObject_Call(ptr_, t, kw);
  Py_DECREF(t);
  Py_XDECREF(kw);
  if (!r) throw error_already_set();
  return object(r, object::stolen_t{});
}

// ------------------------------------------------------------ modules, classes
class module_ : public object {
 public:
  module_() = default;
  module_(handle h, borrowed_t t) : object(h, t) {}
  module_(handle h, stolen_t t) : object(h, t) {}
  static module_ import(const char* name) {
    PyObject* m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    return module_(m, stolen_t{});
  }
  template <typename F, typename... E>
  module_& def(const char* name, F&& f, const E&... e) {
    std::vector<arg_v> x;
    auto one = [&](const auto& v) {
      using U = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<U, arg> || std::is_same_v<U, arg_v>) x.push_back(shim_extra(v));
    };
    (void)one;
    (one(e), ...);
    add_object(name, shim_make(name, std::forward<F>(f), x));
    return *this;
  }
  void add_object(const char* name, handle o) {
    if (PyModule_AddObjectRef(ptr(), name, o.ptr()) < 0) throw error_already_set();
  }
};
template <typename... A> struct init {};
struct shim_doc { template <typename T> void operator=(T&&) {} };

template <typename T>
class class_ : public object {
 public:
  class_(module_& m, const char* name) {
    static std::string full = std::string("arolla.") + name;
    static PyType_Slot slots[] = {
        {Py_tp_dealloc, (void*)+[](PyObject* o) {
           auto* i = (shim_instance*)o;
           if (i->value) i->destroy(i->value);
           PyTypeObject* t = Py_TYPE(o);
           t->tp_free(o);
           Py_DECREF(t);
         }},
        {Py_tp_new, (void*)+[](PyTypeObject* t, PyObject*, PyObject*) -> PyObject* {
           if (!constructor()) { PyErr_SetString(PyExc_TypeError, "No constructor defined!"); return nullptr; }
           PyObject* o = t->tp_alloc(t, 0);
           if (!o) return nullptr;
           try {
             ((shim_instance*)o)->value = constructor()();
             ((shim_instance*)o)->destroy = +[](void* p) { delete (T*)p; };
           } catch (error_already_set& e) {
             Py_DECREF(o);
             e.restore();
             return nullptr;
           }
           return o;
         }},
        {0, nullptr}};
    static PyType_Spec spec = {full.c_str(), (int)sizeof(shim_instance), 0, Py_TPFLAGS_DEFAULT, slots};
    PyObject* t = PyType_FromSpec(&spec);
    if (!t) throw error_already_set();
    ptr_ = t;
    shim_classes()[typeid(T)] = {(PyTypeObject*)t, +[](void* p) { delete (T*)p; }};
    m.add_object(name, *this);
  }
  class_& def(init<>) {
    constructor() = +[]() -> void* { return new T(); };
    return *this;
  }
  template <typename R, typename... A>
  class_& def(const char* name, R (T::*f)(A...)) {
    return def(name, [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); });
  }
  template <typename F>
  class_& def(const char* name, F f) {
    object o = shim_make(name, std::move(f));
    object im(PyInstanceMethod_New(o.ptr()), stolen_t{});
    if (PyObject_SetAttrString(ptr_, name, im.ptr()) < 0) throw error_already_set();
    return *this;
  }
  shim_doc doc() { return {}; }
 private:
  static void* (*&constructor())() {
    static void* (*f)() = nullptr;
    return f;
  }
};

}  // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                     \
  static void pybind11_shim_init_##NAME(::pybind11::module_& VAR);      \
  extern "C" PyObject* PyInit_##NAME() {                                \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1}; \
    PyObject* o = PyModule_Create(&def);                                \
    if (!o) return nullptr;                                             \
    auto m = ::pybind11::reinterpret_borrow<::pybind11::module_>(o);    \
    try {                                                               \
      pybind11_shim_init_##NAME(m);                                     \
    } catch (::pybind11::error_already_set & e) {                       \
      e.restore();                                                      \
      return nullptr;                                                   \
    }                                                                   \
    return o;                                                           \
  }                                                                     \
  static void pybind11_shim_init_##NAME(::pybind11::module_& VAR)
#endif
