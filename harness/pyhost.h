// A real CPython 3.12 inside the simulator.
//
// The interpreter (linked statically, not instrumented) runs on simulated
// threads: its GIL, its locks, its threads, its clocks and its allocator all go
// through the interposed entry points of sim/simrt.cc.  Preemption between any
// two bytecode instructions of the Python code under test is driven by
// sys.monitoring: the INSTRUCTION callback gives up the GIL at seeded points.
//
// The Python sources under test are read from the repository; everything they
// import from the native side comes from the real C++ files compiled into the
// harness.  Include this file from exactly one .cc file of a harness.
#ifndef VERIF_HARNESS_PYHOST_H_
#define VERIF_HARNESS_PYHOST_H_
#include <Python.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include "sim.h"

namespace pyhost {

inline std::string repo() {
  const char* r = getenv("VERIF_REPO");
  return r ? r : "/repo";
}

// ------------------------------------------------------------ module `_sim`
inline PyObject* p_choose(PyObject*, PyObject* a) {
  unsigned long n = PyLong_AsUnsignedLong(a);
  if (PyErr_Occurred()) return nullptr;
  return PyLong_FromUnsignedLongLong(sim_choose(n));
}
inline PyObject* p_fault(PyObject*, PyObject* args) {
  const char* k; unsigned pm;
  if (!PyArg_ParseTuple(args, "sI", &k, &pm)) return nullptr;
  return PyBool_FromLong(sim_fault(k, pm));
}
inline PyObject* p_note(PyObject*, PyObject* a) {
  const char* s = PyUnicode_AsUTF8(a);
  if (!s) return nullptr;
  sim_note("%s", s);
  Py_RETURN_NONE;
}
inline PyObject* p_probe(PyObject*, PyObject* a) {
  const char* s = PyUnicode_AsUTF8(a);
  if (!s) return nullptr;
  sim_probe(s);
  Py_RETURN_NONE;
}
inline PyObject* p_fail(PyObject*, PyObject* args) {
  const char *k, *m;
  if (!PyArg_ParseTuple(args, "ss", &k, &m)) return nullptr;
  sim_fail(k, "%s", m);
}
inline PyObject* p_state(PyObject*, PyObject* a) {
  sim_state(PyLong_AsUnsignedLongLongMask(a));
  PyErr_Clear();
  Py_RETURN_NONE;
}
inline PyObject* p_now(PyObject*, PyObject*) { return PyFloat_FromDouble(sim_now_ns() / 1e9); }
inline PyObject* p_seq(PyObject*, PyObject*) { return PyLong_FromUnsignedLongLong(sim_seq()); }
inline PyObject* p_tid(PyObject*, PyObject*) { return PyLong_FromLong(sim_tid()); }
inline PyObject* p_live(PyObject*, PyObject*) { return PyLong_FromLong(sim_live_threads()); }
// Parks until every other simulated thread is blocked or gone.
inline PyObject* p_quiesce(PyObject*, PyObject*) {
  int n;
  Py_BEGIN_ALLOW_THREADS
  n = sim_quiesce();
  Py_END_ALLOW_THREADS
  return PyLong_FromLong(n);
}
// Gives other threads a chance, without the GIL.
inline PyObject* p_yield(PyObject*, PyObject*) {
  Py_BEGIN_ALLOW_THREADS
  sched_yield();
  Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
inline PyObject* p_spurious(PyObject*, PyObject* a) { sim_set_fault_spurious(PyLong_AsLong(a)); Py_RETURN_NONE; }
inline PyObject* p_early(PyObject*, PyObject* a) { sim_set_fault_early_timer(PyLong_AsLong(a)); Py_RETURN_NONE; }
inline PyObject* p_create_fault(PyObject*, PyObject* a) { sim_set_fault_pthread_create(PyLong_AsLong(a)); Py_RETURN_NONE; }
inline PyObject* p_max_steps(PyObject*, PyObject* a) { sim_set_max_steps(PyLong_AsUnsignedLongLong(a)); Py_RETURN_NONE; }

// ------------------------------------------------------------ preemption
// Instructions until the GIL is given up; drawn from the workload tape.
struct Preempt {
  unsigned mean = 0;      // 0 = never
  unsigned long left = ~0ul;
  int off = 0;
};
inline Preempt pre;
inline void pre_arm() { pre.left = pre.mean ? 1 + sim_choose(2ul * pre.mean) : ~0ul; }
inline PyObject* p_on_instruction(PyObject*, PyObject* const*, Py_ssize_t) {
  if (sim_active() && !pre.off && --pre.left == 0) {
    sim_probe("fault:gil-preemption");
    Py_BEGIN_ALLOW_THREADS
    sched_yield();
    Py_END_ALLOW_THREADS
    pre_arm();
  }
  Py_RETURN_NONE;
}
inline PyObject* p_preempt(PyObject*, PyObject* a) {  // mean gap; 0 = off
  pre.mean = (unsigned)PyLong_AsUnsignedLong(a);
  pre_arm();
  Py_RETURN_NONE;
}

inline PyMethodDef kSim[] = {
    {"choose", p_choose, METH_O, nullptr},      {"fault", p_fault, METH_VARARGS, nullptr},
    {"note", p_note, METH_O, nullptr},          {"probe", p_probe, METH_O, nullptr},
    {"fail", p_fail, METH_VARARGS, nullptr},    {"state", p_state, METH_O, nullptr},
    {"now", p_now, METH_NOARGS, nullptr},       {"seq", p_seq, METH_NOARGS, nullptr},
    {"tid", p_tid, METH_NOARGS, nullptr},       {"live_threads", p_live, METH_NOARGS, nullptr},
    {"quiesce", p_quiesce, METH_NOARGS, nullptr}, {"yield_", p_yield, METH_NOARGS, nullptr},
    {"spurious", p_spurious, METH_O, nullptr},  {"early_timers", p_early, METH_O, nullptr},
    {"create_faults", p_create_fault, METH_O, nullptr},
    {"max_steps", p_max_steps, METH_O, nullptr},
    {"on_instruction", (PyCFunction)(void*)p_on_instruction, METH_FASTCALL, nullptr},
    {"preempt", p_preempt, METH_O, nullptr},    {nullptr}};
inline PyModuleDef kSimDef = {PyModuleDef_HEAD_INIT, "_sim", nullptr, -1, kSim};
inline PyObject* init_sim() { return PyModule_Create(&kSimDef); }

// ------------------------------------------------------------ boot
inline const char kBoot[] = R"PY(
import sys, types, importlib.abc, importlib.util, builtins
import _sim
REPO = sys.repo
_mon = sys.monitoring
_mon.use_tool_id(5, 'sim')
_mon.register_callback(5, _mon.events.INSTRUCTION, _sim.on_instruction)
def watch(code):
  _mon.set_local_events(5, code, _mon.events.INSTRUCTION)
  for c in code.co_consts:
    if isinstance(c, types.CodeType): watch(c)
def source_module(name, path):
  """Executes a Python source of the repository as module `name`."""
  with open(REPO + '/' + path) as f: src = f.read()
  m = types.ModuleType(name)
  m.__file__ = path
  m.__package__ = name.rpartition('.')[0]
  sys.modules[name] = m
  code = compile(src, path, 'exec')
  for c in code.co_consts:
    if isinstance(c, types.CodeType): watch(c)
  exec(code, m.__dict__)
  return m
def watch_module(m):
  """Adds the functions of a standard library module to the preempted code."""
  for v in list(vars(m).values()):
    if isinstance(v, types.FunctionType) and v.__module__ == m.__name__: watch(v.__code__)
    elif isinstance(v, type) and v.__module__ == m.__name__:
      for w in list(vars(v).values()):
        w = getattr(w, '__func__', w)
        if isinstance(w, types.FunctionType): watch(w.__code__)
def fake_module(name, **kw):
  m = types.ModuleType(name)
  m.__path__ = []
  m.__dict__.update(kw)
  sys.modules[name] = m
  return m
)PY";

[[noreturn]] inline void die(const char* what) {
  fprintf(stderr, "pyhost: %s\n", what);
  if (PyErr_Occurred()) PyErr_Print();
  fflush(stderr);
  _exit(75);
}
// What escaped the scenario, as one line with the innermost frames.
inline std::string describe_error() {
  PyObject* ex = PyErr_GetRaisedException();
  if (!ex) return "no exception";
  std::string out;
  PyObject* tb = PyImport_ImportModule("traceback");
  PyObject* l = tb ? PyObject_CallMethod(tb, "format_exception", "O", ex) : nullptr;
  if (l) {
    for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) {
      const char* s = PyUnicode_AsUTF8(PyList_GetItem(l, i));
      if (s) out += s;
    }
  } else {
    PyErr_Clear();
    out = Py_TYPE(ex)->tp_name;
  }
  return out;
}
inline void run_script(const char* src, const char* name) {
  PyObject* m = PyImport_AddModule("__main__");
  PyObject* d = PyModule_GetDict(m);
  PyObject* c = Py_CompileString(src, name, Py_file_input);
  if (!c) die(name);
  PyObject* r = PyEval_EvalCode(c, d, d);
  if (!r) die(name);
  Py_DECREF(r);
  Py_DECREF(c);
}
inline PyThreadState* saved;

// Called from sim_init(): starts the interpreter on the zygote's only thread.
template <typename F>
inline void boot(F native_modules, const char* script) {
  PyImport_AppendInittab("_sim", init_sim);
  PyPreConfig pc;
  PyPreConfig_InitIsolatedConfig(&pc);
  pc.allocator = PYMEM_ALLOCATOR_MALLOC;
  pc.utf8_mode = 1;
  if (PyStatus_Exception(Py_PreInitialize(&pc))) die("preinit");
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1;
  c.hash_seed = 0;
  c.install_signal_handlers = 0;
  c.site_import = 0;
  c.write_bytecode = 0;
  c.buffered_stdio = 0;
  c.parse_argv = 0;
  PyConfig_SetString(&c, &c.home, L"/usr");
  PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3.12");
  c.module_search_paths_set = 1;
  PyWideStringList_Append(&c.module_search_paths, L"/usr/lib/python3.12");
  PyWideStringList_Append(&c.module_search_paths, L"/usr/lib/python3.12/lib-dynload");
  if (PyStatus_Exception(Py_InitializeFromConfig(&c))) die("init");
  PyObject* r = PyUnicode_FromString(repo().c_str());
  PySys_SetObject("repo", r);
  Py_DECREF(r);
  run_script(kBoot, "<boot>");
  native_modules();
  run_script(script, "<scenario>");
  PyGC_Collect();
  run_script("import gc; gc.freeze()", "<freeze>");
  saved = PyEval_SaveThread();
}
// Called from sim_scenario(): makes the simulated thread 0 Python's main
// thread and calls `scenario()`.
inline void run(const char* fn = "scenario") {
  pre = Preempt();
  PyGILState_Ensure();
  PyOS_AfterFork_Child();
  PyObject* d = PyModule_GetDict(PyImport_AddModule("__main__"));
  PyObject* f = PyDict_GetItemString(d, fn);
  if (!f) die(fn);
  PyObject* r = PyObject_CallNoArgs(f);
  if (!r) sim_fail("python-exception", "%s", describe_error().c_str());
  Py_DECREF(r);
}

}  // namespace pyhost
#endif
