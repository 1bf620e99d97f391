// The cancellation and task modules of arolla's Python side, assembled in the
// simulated interpreter: real Python sources, real native files, stand-ins for
// the package files around them.
#ifndef VERIF_HARNESS_PYAROLLA_H_
#define VERIF_HARNESS_PYAROLLA_H_
#include "pyhost.h"
#include "arolla/util/init_arolla.h"
#include "py/arolla/abc/py_cancellation.h"
#include "py/arolla/experimental/_tasks/py_lock.h"
#include "py/arolla/experimental/_tasks/python_callback_bridge.h"
#include "py/arolla/py_utils/error_converter_registry.h"
#include "py/arolla/py_utils/py_cancellation_controller.h"
#include "py/arolla/py_utils/py_utils.h"

extern "C" PyObject* PyInit_clib();

namespace pyhost {

inline PyObject* p_override_sigint(PyObject*, PyObject*) {
  if (!arolla::python::py_cancellation_controller::UnsafeOverrideSignalHandler()) return nullptr;
  Py_RETURN_NONE;
}
inline PyObject* init_abc_clib() {
  using namespace arolla::python;
  static PyMethodDef defs[] = {
      kDefPyCancelled, kDefPyCurrentCancellationContext, kDefPyRaiseIfCancelled,
      kDefPyRunInCancellationContext, kDefPyRunInDefaultCancellationContext, kDefPySimulateSIGINT,
      {"unsafe_override_signal_handler_for_cancellation", p_override_sigint, METH_NOARGS, nullptr},
      {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "abc_clib", nullptr, -1, defs};
  PyObject* m = PyModule_Create(&def);
  if (!m) return nullptr;
  PyObject* t = (PyObject*)PyCancellationContextType();
  if (!t || PyModule_AddObjectRef(m, "CancellationContext", t) < 0) return nullptr;
  return m;
}
inline void native_module(const char* name, PyObject* (*init)()) {
  PyObject* m = init();
  if (!m) die(name);
  PyObject* d = PyImport_GetModuleDict();
  PyDict_SetItemString(d, name, m);
}

inline const char kArolla[] = R"PY(
import threading, time, concurrent.futures as futures, concurrent.futures.thread, asyncio, asyncio.base_events, ctypes, queue, gc, weakref
_abc_clib = sys.modules['arolla.abc.clib']
_tasks_clib = sys.modules['arolla.experimental._tasks.clib']
_pkg = fake_module('arolla')
_abc = fake_module('arolla.abc', clib=_abc_clib)
_can = source_module('arolla.abc.cancellation', 'py/arolla/abc/cancellation.py')
for _k, _v in vars(_can).items():
  if not _k.startswith('_'): setattr(_abc, _k, _v)
_abc.cancellation = _can
_abc.get_type_name = lambda t: t.__name__
_pkg.abc = _abc
arolla = fake_module('arolla.arolla', abc=_abc)
_pkg.arolla = arolla
fake_module('arolla.experimental')
fake_module('arolla.experimental._tasks', clib=_tasks_clib)

class SimLoop(asyncio.base_events.BaseEventLoop):
  """asyncio's own event loop over a condition instead of a file selector."""
  def __init__(self):
    super().__init__()
    self._ev = threading.Event()
    self._selector = self
  def select(self, timeout=None):
    if timeout is None or timeout > 0: self._ev.wait(timeout)
    self._ev.clear()
    return []
  def _process_events(self, events): pass
  def _write_to_self(self): self._ev.set()
  def close(self): super().close()
asyncio.new_event_loop = SimLoop
def load_tasks():
  global submit_mod, callbacks_mod, locks_mod
  p = 'py/arolla/experimental/_tasks/'
  submit_mod = source_module('arolla.experimental._tasks.submit', p + 'submit.py')
  callbacks_mod = source_module('arolla.experimental._tasks.callbacks', p + 'callbacks.py')
  locks_mod = source_module('arolla.experimental._tasks.locks', p + 'locks.py')
  t = sys.modules['arolla.experimental._tasks']
  t.submit, t.callbacks, t.locks = submit_mod, callbacks_mod, locks_mod
  global tasks
  tasks = source_module('arolla.experimental.tasks', 'py/arolla/experimental/tasks.py')
def watch_fn(f):
  watch(f.__code__)
  return f
def fail(key, *a):
  _sim.fail(key, ' '.join(str(x) for x in a))
def check(cond, key, *a):
  if not cond: fail(key, *a)
)PY";

inline void boot_arolla(const char* script) {
  boot(
      [] {
        arolla::InitArolla();
        native_module("arolla.abc.clib", init_abc_clib);
        native_module("arolla.experimental._tasks.clib", PyInit_clib);
        run_script(kArolla, "<arolla>");
      },
      script);
}

}  // namespace pyhost
#endif
