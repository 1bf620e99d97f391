// C19: the interrupt signal and the cancellation contexts of Python's main
// thread.
//
// Real: py_cancellation_controller.cc with its worker thread and its signal
// handler, py_cancellation.cc, py_utils.cc, py_lock.cc, cancellation.py,
// util/cancellation and CPython with its own signal module.  Simulated: the
// system calls around them (pipe, read, write, close, fcntl, sigaction,
// pthread_sigmask) and the arrival of the signal, which interrupts any thread
// that lets it at any instrumented instruction.
#include "pyarolla.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" const char* const sim_harness_name = "pysigint";

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
namespace {
struct Quiet {
  Quiet() { if (sim_active()) sim_ignore_begin(); }
  ~Quiet() { if (sim_active()) sim_ignore_end(); }
};
unsigned g_faults, g_read_faults;  // per mille, for the system calls below
// ------------------------------------------------------------ pipes
const int kFd = 1000000;
struct Pipe { bool open[2]; bool nonblock[2]; int cap, n; unsigned char buf[64]; sem_t used, room; };
Pipe g_pipe[8];
int g_pipes;
bool g_read_died;
Pipe* pipe_of(int fd, int* end) {
  if (fd < kFd || fd >= kFd + 2 * g_pipes) return nullptr;
  *end = (fd - kFd) & 1;
  return &g_pipe[(fd - kFd) / 2];
}
bool may_fail(const char* kind) { return g_faults && sim_fault(kind, g_faults); }
// ------------------------------------------------------------ signals
struct sigaction g_act;       // SIGINT's disposition
struct sigaction g_orig;
const int kErrno = 54321;
siginfo_t g_info;
int g_uctx;
struct Sig { uint64_t begin, end; int tid; };
Sig g_sig[256];
int g_sigs, g_plain, g_full;  // signals; calls of the plain / siginfo handlers
int g_bad;
void plain_handler(int s) { Quiet q; g_plain++; if (s != SIGINT) g_bad = 1; }
void full_handler(int s, siginfo_t* i, void* c) {
  Quiet q; g_full++;
  if (s != SIGINT) g_bad = 1;
  if (i != &g_info || c != &g_uctx) g_bad = 2;
}
// One SIGINT, on the calling thread.
void deliver() {
  struct sigaction a;
  int k;
  { Quiet q; a = g_act; k = g_sigs++; g_sig[k].begin = sim_seq(); g_sig[k].tid = sim_tid(); }
  sim_probe("signal");
  sim_acquire(&g_act);
  int e = errno;
  errno = kErrno;
  if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(SIGINT, &g_info, &g_uctx);
  else if (a.sa_handler == SIG_IGN) {}
  else if (a.sa_handler == SIG_DFL) sim_fail("signal-disposition", "the default action of SIGINT ends the process");
  else a.sa_handler(SIGINT);
  int now = errno;
  errno = e;
  if (now != kErrno) sim_fail("errno-changed", "errno is %d after the signal handler", now);
  { Quiet q; g_sig[k].end = sim_seq(); }
  if (g_bad) sim_fail("original-handler", "the original handler was called with %s", g_bad == 1 ? "another signal" : "other arguments");
}
bool same_action(const struct sigaction& a, const struct sigaction& b) {
  return a.sa_handler == b.sa_handler && (a.sa_flags & SA_SIGINFO) == (b.sa_flags & SA_SIGINFO);
}
}  // namespace

extern "C" {
int pipe2(int fds[2], int flags) {
  if (!sim_active()) return (int)syscall(SYS_pipe2, fds, flags);
  if (may_fail("pipe-EMFILE") || g_pipes == 8) { errno = EMFILE; return -1; }
  Quiet q;
  Pipe& p = g_pipe[g_pipes];
  p.open[0] = p.open[1] = true;
  p.nonblock[0] = p.nonblock[1] = (flags & O_NONBLOCK) != 0;
  p.n = 0;
  p.cap = 1 + (int)sim_choose(5);
  sem_init(&p.used, 0, 0); sem_init(&p.room, 0, p.cap);
  sim_signal_may_block(!p.nonblock[1]);
  fds[0] = kFd + 2 * g_pipes; fds[1] = fds[0] + 1;
  g_pipes++;
  return 0;
}
int pipe(int fds[2]) { return pipe2(fds, 0); }
int close(int fd) {
  int e; Pipe* p = pipe_of(fd, &e);
  if (!p) return (int)syscall(SYS_close, fd);
  Quiet q;
  if (!p->open[e]) { errno = EBADF; return -1; }
  p->open[e] = false;
  return 0;
}
ssize_t write(int fd, const void* b, size_t n) {
  int e; Pipe* p = pipe_of(fd, &e);
  if (!p) return syscall(SYS_write, fd, b, n);
  if (e != 1 || !p->open[1]) { errno = EBADF; return -1; }
  size_t k = 0;
  for (; k < n; ++k) {
    if (sem_trywait(&p->room)) {
      sim_probe("pipe-full");
      if (p->nonblock[1]) { errno = EAGAIN; return k ? (ssize_t)k : -1; }
      sem_wait(&p->room);
    }
    { Quiet q; p->buf[p->n++] = ((const unsigned char*)b)[k]; }
    sem_post(&p->used);
  }
  return (ssize_t)k;
}
ssize_t read(int fd, void* b, size_t n) {
  int e; Pipe* p = pipe_of(fd, &e);
  if (!p) return syscall(SYS_read, fd, b, n);
  if (e != 0 || !p->open[0]) { errno = EBADF; return -1; }
  if (sim_fault("read-EINTR", g_read_faults)) { errno = EINTR; return -1; }
  if (p->nonblock[1] && sim_fault("read-EIO", g_read_faults / 8)) { g_read_died = true; errno = EIO; return -1; }
  if (p->nonblock[0] && sem_trywait(&p->used)) { errno = EAGAIN; return -1; }
  if (!p->nonblock[0]) sem_wait(&p->used);
  size_t k = 0;
  for (;;) {
    {
      Quiet q;
      ((unsigned char*)b)[k++] = p->buf[0];
      memmove(p->buf, p->buf + 1, --p->n);
    }
    sem_post(&p->room);
    if (k == n || sim_fault("read-short", g_read_faults) || sem_trywait(&p->used)) break;
  }
  if (k > 1) sim_probe("several-signals-in-one-read");
  return (ssize_t)k;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  int e; Pipe* p = pipe_of(fd, &e);
  if (!p) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (!p->open[e]) { errno = EBADF; return -1; }
  if (may_fail("fcntl-EINVAL")) { errno = EINVAL; return -1; }
  Quiet q;
  if (cmd == F_GETFL) return (e ? O_WRONLY : O_RDONLY) | (p->nonblock[e] ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) {
    p->nonblock[e] = (arg & O_NONBLOCK) != 0;
    if (e == 1) sim_signal_may_block(!p->nonblock[1]);
    return 0;
  }
  return 0;  // F_SETFD and the like
}
int sigaction(int s, const struct sigaction* act, struct sigaction* old) {
  static int (*real)(int, const struct sigaction*, struct sigaction*);
  if (s != SIGINT || !sim_active()) {
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "sigaction");
    return real(s, act, old);
  }
  sim_yield();
  if (may_fail("sigaction-EINVAL")) { errno = EINVAL; return -1; }
  sim_release(&g_act, 1);
  Quiet q;
  if (old) *old = g_act;
  if (act) g_act = *act;
  return 0;
}
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
  static int (*real)(int, const sigset_t*, sigset_t*);
  if (!sim_active()) {
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_sigmask");
    return real(how, set, old);
  }
  if (old) sigemptyset(old);
  if (set && sigismember(set, SIGINT)) sim_block_signals(how != SIG_UNBLOCK);
  return 0;
}
}

// ------------------------------------------------------------ module `_ctl`
static PyObject* c_faults(PyObject*, PyObject* a) { g_faults = (unsigned)PyLong_AsLong(a); Py_RETURN_NONE; }
static PyObject* c_init(PyObject*, PyObject*) {
  arolla::python::py_cancellation_controller::Init();
  if (PyErr_Occurred()) return nullptr;
  Py_RETURN_NONE;
}
static PyObject* c_read_faults(PyObject*, PyObject* a) { g_read_faults = (unsigned)PyLong_AsLong(a); Py_RETURN_NONE; }
// Init() while `n` pending calls are queued already.
static PyObject* c_init_full(PyObject*, PyObject*) {
  while (Py_AddPendingCall([](void*) { return 0; }, nullptr) == 0) {}
  return c_init(nullptr, nullptr);
}
static PyObject* c_original(PyObject*, PyObject* a) {
  Quiet q;
  long k = PyLong_AsLong(a);
  if (k != 0) {
    memset(&g_act, 0, sizeof g_act);
    if (k == 1 || k == 5) g_act.sa_handler = plain_handler;
    if (k == 2) { g_act.sa_sigaction = full_handler; g_act.sa_flags = SA_SIGINFO | SA_RESTART; }
    if (k == 3) g_act.sa_handler = SIG_DFL;
    if (k == 4) g_act.sa_handler = SIG_IGN;
    if (k == 5) g_act.sa_flags = SA_RESETHAND;
  }
  g_orig = g_act;
  sim_release(&g_act, 1);
  Py_RETURN_NONE;
}
static PyObject* c_installed(PyObject*, PyObject*) { return PyBool_FromLong(!same_action(g_act, g_orig)); }
static PyObject* c_deliver(PyObject*, PyObject*) {
  Py_BEGIN_ALLOW_THREADS
  sim_signal_now(deliver);
  Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject* c_deliver_here(PyObject*, PyObject*) { sim_signal_now(deliver); Py_RETURN_NONE; }
static PyObject* c_arm(PyObject*, PyObject* a) { sim_arm_signal(PyLong_AsUnsignedLong(a), deliver); Py_RETURN_NONE; }
static PyObject* c_signals(PyObject*, PyObject*) {
  PyObject* l = PyList_New(0);
  for (int i = 0; i < g_sigs; ++i) {
    PyObject* t = Py_BuildValue("(KK)", (unsigned long long)g_sig[i].begin, (unsigned long long)g_sig[i].end);
    PyList_Append(l, t);
    Py_DECREF(t);
  }
  return l;
}
// A callback on the current context that takes its time.
static PyObject* c_slow(PyObject*, PyObject* a) {
  long ms = PyLong_AsLong(a);
  auto* c = arolla::CancellationContext::ScopeGuard::current_cancellation_context();
  if (c) {
    auto s = c->Subscribe([ms] { sim_probe("slow-callback"); timespec d = {ms / 1000, ms % 1000 * 1000000}; nanosleep(&d, nullptr); });
    std::move(s).Detach();
  }
  Py_RETURN_NONE;
}
static PyObject* c_simulate(PyObject*, PyObject*) {
  Py_BEGIN_ALLOW_THREADS
  arolla::python::py_cancellation_controller::SimulateSIGINT();
  Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject* c_counts(PyObject*, PyObject*) { return Py_BuildValue("(iii)", g_sigs, g_plain, g_full); }
static PyObject* c_read_died(PyObject*, PyObject*) { return PyBool_FromLong(g_read_died); }
static PyMethodDef kCtl[] = {
    {"faults", c_faults, METH_O, nullptr}, {"read_faults", c_read_faults, METH_O, nullptr}, {"init", c_init, METH_NOARGS, nullptr},
    {"init_full", c_init_full, METH_NOARGS, nullptr}, {"original", c_original, METH_O, nullptr},
    {"installed", c_installed, METH_NOARGS, nullptr}, {"deliver", c_deliver, METH_NOARGS, nullptr},
    {"deliver_here", c_deliver_here, METH_NOARGS, nullptr}, {"arm", c_arm, METH_O, nullptr},
    {"signals", c_signals, METH_NOARGS, nullptr}, {"counts", c_counts, METH_NOARGS, nullptr},
    {"simulate", c_simulate, METH_NOARGS, nullptr}, {"slow", c_slow, METH_O, nullptr},
    {"read_died", c_read_died, METH_NOARGS, nullptr}, {nullptr}};
static PyModuleDef kCtlDef = {PyModuleDef_HEAD_INIT, "_ctl", nullptr, -1, kCtl};
static PyObject* init_ctl() { return PyModule_Create(&kCtlDef); }

#pragma clang attribute pop

static const char kScript[] = R"PY(
load_tasks()
import itertools, signal, warnings, _ctl
threading._dangling.clear()
watch_module(threading)
choose = _sim.choose
seq = _sim.seq
abc = arolla.abc
class World: pass

def on_int(signum, frame): W.handler_runs.append(seq())
def interrupted(e): return str(e) == '[CANCELLED] interrupted'
def addr(c): return repr(c).split('addr=')[1].split(',')[0]

# What a default scope on the main thread saw.
def body(depth, ops):
  s = seq()
  c = abc.current_cancellation_context()
  W.acquired.append((s, c))
  check(c is not None, 'no-context', 'a default scope on the main thread has no context')
  for (op, x) in ops:
    if op == 0:
      for _ in range(x): _sim.yield_()
    elif op == 1: time.sleep([0.01, 0.5][x & 1])
    elif op == 2:        # an inner default scope keeps the context
      try: abc.run_in_default_cancellation_context(inner, c)
      except ValueError as e: check(c.cancelled() and interrupted(e), 'cancelled-unasked', e)
    elif op == 3:        # an explicit context is left alone
      k = abc.CancellationContext()
      abc.run_in_cancellation_context(k, explicit, k, x)
      if not x & 2: W.explicit.append(k)
    elif op == 4 and W.may_signal:      # wait to be interrupted
      W.waiting.append(seq())
      while not c.cancelled(): time.sleep(0.1)
      _sim.probe('interrupted-in-scope')
      W.waiting.pop()
    elif op == 5:
      abc.simulate_SIGINT(); next(W.simulated)
      check(c.cancelled(), 'simulated-interrupt-lost', 'the context of the scope in progress is not cancelled')
    elif op == 6 and W.may_signal and W.sigs_here:
      W.sigs_here.pop(); _ctl.deliver_here()
    elif op == 7: _ctl.slow(200 * x)
  if c.cancelled():
    try: abc.raise_if_cancelled()
    except ValueError as e: check(interrupted(e), 'wrong-error', e)
    else: fail('not-raised', 'raise_if_cancelled() in a cancelled context')
    check(abc.cancelled(), 'not-raised', 'cancelled()')
  return c
def inner(c):
  check(addr(abc.current_cancellation_context()) == addr(c), 'other-context', 'an inner default scope has another context')
def explicit(k, x):
  d = abc.run_in_default_cancellation_context(abc.current_cancellation_context)
  check(addr(d) == addr(k), 'other-context', 'a default scope inside an explicit context replaced it')
  if x & 1 and W.sigs_here and W.may_signal:
    W.sigs_here.pop(); _ctl.deliver_here()
  for _ in range(x): _sim.yield_()
  check(not k.cancelled(), 'explicit-context-cancelled')
  if x & 2:              # once it is cancelled, no default scope starts inside it
    k.cancel('mine')
    try: abc.run_in_default_cancellation_context(fail, 'ran-although-cancelled')
    except ValueError as e: check(str(e) == '[CANCELLED] mine', 'wrong-error', e)
    check(abc.cancelled() and addr(abc.current_cancellation_context()) == addr(k), 'other-context')

def default_scope(ops):
  n0 = len(W.acquired)
  before = seq()
  try: c = abc.run_in_default_cancellation_context(body, 0, ops)
  except ValueError as e:
    check(interrupted(e), 'wrong-error', e)
    W.scope_ends.append((seq(), True)); _sim.probe('interrupted-before-body')
    return
  W.scope_ends.append((seq(), c.cancelled()))

def locked_out(w):
  """Waits for a lock nobody gives back, outside of any context."""
  w.waiting.append(seq())
  try: r = w.lock.acquire()
  except ValueError as e: check(interrupted(e), 'wrong-error', e); _sim.probe('lock-interrupted')
  else: fail('acquired-held-lock', r)
  finally: w.waiting.pop()

def other(w, n):
  # Another thread's default scopes: a context of their own, never interrupted.
  for _ in range(n):
    def f():
      c = abc.current_cancellation_context()
      check(c is not None, 'no-context')
      for _ in range(choose(6)): _sim.yield_()
      check(not c.cancelled(), 'other-thread-cancelled', 'the interrupt reached a scope of another thread')
      return c
    try: w.explicit.append(abc.run_in_default_cancellation_context(f))
    except ValueError as e: fail('other-thread-cancelled', e)
def sender(w, script):
  for (op, x) in script:
    if op == 0: _ctl.deliver()
    elif op == 1:
      (_ctl.simulate if x & 1 else abc.simulate_SIGINT)(); next(w.simulated)
    elif op == 2: _ctl.init()
    elif op == 3: time.sleep([0.01, 0.3][x & 1])
    else:
      for _ in range(x): _sim.yield_()
def rescuer(w):
  # Interrupts the main thread for as long as it waits for that.
  while not w.stop:
    time.sleep(1)
    if w.waiting: _ctl.deliver()

def off_main():
  try: abc.unsafe_override_signal_handler_for_cancellation()
  except ValueError as e: check('main thread' in str(e), 'wrong-error', e)
  else: fail('overridden-off-main')
def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u):
  # A warning that the filters made an error has nowhere else to go.
  if isinstance(u.exc_value, RuntimeWarning) and 'py_cancellation_controller' in str(u.exc_value) and W.initializing: W.seen.append(str(u.exc_value))
  else: fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (body, inner, explicit, default_scope, locked_out, other, sender, rescuer): watch_fn(f)

def spin():
  for _ in range(20): pass
def init(w, how):
  """Init() in one of several ways."""
  def go():
    _ctl.init_full() if how & 1 else _ctl.init()
    spin()
  if how & 2:
    t = threading.Thread(target=go); t.start(); t.join()
  else: go()
  spin()

def settle(w):
  _sim.early_timers(0)
  time.sleep(100)
  _sim.quiesce()
  spin()

def scenario():
  global W
  W = w = World()
  w.acquired = []; w.explicit = []; w.waiting = []; w.scope_ends = []; w.handler_runs = []; w.gaps = []
  w.simulated = itertools.count(); w.stop = False
  _sim.max_steps(600000)
  kind = [0, 0, 0, 0, 1, 2, 3, 4, 5][choose(9)]
  if kind == 0: signal.signal(signal.SIGINT, on_int)
  _ctl.original(kind)
  w.lock = tasks.Lock(); w.lock.acquire()
  wmode = choose(3)
  w.seen = seen = []; w.initializing = True
  warnings.resetwarnings()
  warnings.simplefilter(['always', 'error', 'ignore'][wmode])
  warnings.showwarning = lambda m, c, *a: seen.append(str(m))
  # Initialization, possibly with failing system calls.
  faulty = choose(3) == 1
  if faulty:
    _sim.probe('faulty-init')
    _ctl.faults([100, 400][choose(2)]); _sim.create_faults([0, 300][choose(2)])
  how = choose(4)
  if faulty and how & 2: _sim.create_faults(0)
  early = choose(3) == 1
  if early and kind in (0, 1, 2): _ctl.arm(1 + choose(1000))
  init(w, how)
  _sim.create_faults(0)
  if how & 1: _sim.probe('pending-queue-full'); init(w, 0)      # works at the second attempt
  _ctl.faults(0)
  w.initializing = False
  failed = bool(seen)
  live = _ctl.installed()
  check(live or faulty or kind >= 3, 'not-installed', 'initialization without a failure left no signal handler', kind)
  check(not live or kind < 3, 'handler-over-ignored', 'a handler was installed although SIGINT was', kind)
  check(live or wmode == 2 or failed, 'silent-failure', 'initialization failed without a warning')
  if failed and not (how & 1): check(faulty or kind >= 3, 'warned-unasked', *seen)
  if not live: _sim.probe('no-handler')
  if faulty and live: _sim.probe('handler-despite-faults')
  w.may_signal = live
  if live and faulty and choose(2): _ctl.read_faults(60)   # the worker's reads
  _sim.preempt([0, 3, 10, 40][choose(4)])
  _sim.spurious([0, 0, 30][choose(3)])
  if choose(4) == 1: _sim.early_timers(30)
  if live and not early and choose(2): _ctl.arm(1 + choose([100, 2000, 20000][choose(3)]))
  w.sigs_here = [0] * choose(3)
  threads = []
  for _ in range(choose(3)): threads.append(threading.Thread(target=other, args=(w, 1 + choose(3))))
  for _ in range(choose(3)):
    s = [((choose(5) if live else 1 + choose(4)), choose(8)) for _ in range(1 + choose(5))]
    threads.append(threading.Thread(target=sender, args=(w, s)))
  r = threading.Thread(target=rescuer, args=(w,))
  wait_ok = live and not _ctl.read_died() and not faulty
  w.may_wait = wait_ok
  if wait_ok: r.start()
  for t in threads: t.start()
  if live and choose(6) == 1:
    # One interrupt follows the other while callbacks of the first one run.
    w.sigs_here += [0] * 3
    for _ in range(2 + choose(2)): default_scope([(7, choose(8)), (6, 0), (1, choose(2))])
    w.sigs_here = []
  for _ in range(1 + choose(4)):
    k = choose(5)
    if k == 4 and wait_ok: locked_out(w)
    elif k == 3 and kind == 0 and live:
      # Somebody else takes the signal over, then arolla takes it back.
      g0 = seq()
      if choose(2): signal.signal(signal.SIGINT, on_int)
      if choose(2): _sim.yield_()
      abc.unsafe_override_signal_handler_for_cancellation()
      w.gaps.append((g0, seq()))
      _sim.probe('handler-overridden')
    else:
      ops = [(choose(8), choose(8)) for _ in range(choose(5))]
      if not wait_ok: ops = [o for o in ops if o[0] != 4]
      default_scope(ops)
  for t in threads: t.join()
  w.stop = True
  if wait_ok: r.join()
  _ctl.arm(0); _ctl.read_faults(0)
  settle(w)
  # Every signal cancelled the context in use on the main thread before it.
  died = _ctl.read_died()
  nsim = next(w.simulated)
  sigs = _ctl.signals()
  contexts = {}
  for s, c in w.acquired: contexts.setdefault(addr(c), c)
  cancelled = [c for c in contexts.values() if c.cancelled()]
  check(len(cancelled) <= len(sigs) + nsim, 'cancelled-unasked', len(cancelled), 'contexts cancelled by', len(sigs), 'signals')
  if live and not died:
    for b, e in sigs:
      prev = [c for s, c in w.acquired if s < b]
      if prev and not any(g0 <= e and b <= g1 for g0, g1 in w.gaps): check(prev[-1].cancelled(), 'signal-lost', 'the context in use when the signal came was not cancelled')
  for c in w.explicit: check(not c.cancelled(), 'explicit-context-cancelled')
  n, plain, full = _ctl.counts()
  if kind in (1, 5): check(plain == n, 'original-handler-skipped', n, 'signals', plain, 'calls')
  if kind == 2: check(full == n, 'original-handler-skipped', n, 'signals', full, 'calls')
  if kind == 0:
    check(len(w.handler_runs) <= n, 'original-handler-repeated')
    for b, e in sigs:
      check(any(h > b for h in w.handler_runs) or any(c and t > b for t, c in w.scope_ends), 'python-handler-skipped',
            'neither the Python handler ran nor an interrupted scope ended after the signal')
  if not live and kind == 0:     # installing the handler is another matter
    try:
      abc.unsafe_override_signal_handler_for_cancellation()
      live = True; _sim.probe('handler-installed-later')
    except RuntimeWarning as e: check('non-functional' in str(e) and faulty, 'wrong-error', e); _sim.probe('non-functional')
  elif not live and choose(2):
    t = threading.Thread(target=off_main); t.start(); t.join()
  # Afterwards everything is fresh again.
  c = abc.run_in_default_cancellation_context(abc.current_cancellation_context)
  check(not c.cancelled(), 'stale-context', 'a new scope starts cancelled')
  c0 = abc.run_in_default_cancellation_context(abc.current_cancellation_context)
  check(addr(c) == addr(c0), 'context-not-kept', 'two scopes without an interrupt between them have two contexts')
  if live and not died:
    _ctl.deliver_here(); settle(w)
    check(c.cancelled(), 'signal-lost', 'at the end')
    c2 = abc.run_in_default_cancellation_context(abc.current_cancellation_context)
    check(addr(c2) != addr(c) and not c2.cancelled(), 'stale-context')
  else:
    abc.simulate_SIGINT()
    check(c.cancelled(), 'simulated-interrupt-lost')
  check(abc.current_cancellation_context() is None, 'context-left-behind')
)PY";

extern "C" void sim_init() {
  PyImport_AppendInittab("_ctl", init_ctl);
  pyhost::boot_arolla(kScript);
}
extern "C" void sim_scenario() { pyhost::run(); }
