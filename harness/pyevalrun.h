// C22: evaluation from Python through the compile caches.
//
// Real: py_eval.cc, py_cached_eval.cc, py_compiled_expr.cc, lru_cache.h, py.call
// and everything below them (expression compiler, evaluator), and CPython.
#ifndef VERIF_HARNESS_PYEVALRUN_H_
#define VERIF_HARNESS_PYEVALRUN_H_
#include "pyeval.h"
#include <condition_variable>
#include <mutex>

namespace {
// test.wait: an operator that blocks until Python code lets it go; evaluating
// it with the GIL held would be a deadlock.
std::mutex gate_mu;
std::condition_variable gate_cv;
bool gate_open = true;
PyObject* p_gate(PyObject*, PyObject* a) {
  const bool open = a == Py_True;
  {
    std::lock_guard l(gate_mu);
    gate_open = open;
  }
  gate_cv.notify_all();
  Py_RETURN_NONE;
}
void more() {
  ops::Def("test.wait", "x", arolla::GetQType<int64_t>(), [](int64_t a) {
    std::unique_lock l(gate_mu);
    if (!gate_open) sim_probe("blocked-evaluation");
    while (!gate_open) gate_cv.wait(l);
    return a;
  });
  static PyMethodDef defs[] = {{"gate", p_gate, METH_O, nullptr}, {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_gate", nullptr, -1, defs};
  pyhost::native_module("_gate", [] { return PyModule_Create(&def); });
}
}  // namespace

static const char kScript[] = R"PY(
import itertools
gate = sys.modules['_gate'].gate
clib = _abc_clib
choose = _sim.choose
seq = _sim.seq
box, unbox, obj, lit, leaf = clib.int64, clib.unint64, clib.obj, clib.literal, clib.leaf
INT = clib.qtype_of(box(1)); OBJ = clib.obj_qtype()
bind = clib.bind_op
tls = threading.local()
M = 1000003

def value(k, v): return (v * 7 + k * 13 + 5) % M
def bad(k, v): return (v + k) % 7 == 0
class Boom(Exception): pass
class World: pass
W = World()
W.made = itertools.count(); W.died = itertools.count()
W.active = False

class Fn:
  """A Python function used by expressions; made ones live in models only."""
  def __init__(self, k, made):
    self.k = k; self.made = made; self.alive = True
    next(W.made)
  def __call__(self, a):
    check(self.alive, 'called-after-death', self.k)
    v = unbox(a)
    behave('call')
    if bad(self.k, v): raise Boom(self.k, v)
    return box(value(self.k, v))
  def __del__(self):
    self.alive = False
    next(W.died)
    behave('death')
def maker(a):
  k = unbox(a)
  c = getattr(tls, 'counts', None)
  if c: c[-1] += 1
  if W.active: behave('make')
  return obj(Fn(k, True))
MAKER = lit(obj(maker))

# Expressions and what they mean.
def build(t):
  op = t[0]
  if op == 'x': return leaf('x')
  if op == 'y': return leaf('y')
  if op == 'lit': return lit(box(t[1]))
  if op == 'add': return bind('test.add', build(t[1]), build(t[2]))
  if op == 'wait': return bind('test.wait', build(t[1]))
  args = bind('core.make_tuple', build(t[-1]))
  if op == 'call': return bind('py.call', lit(obj(Fn(t[1], False))), lit(INT), args)
  if op == 'made': return bind('py.call', bind('py.call', MAKER, lit(OBJ), bind('core.make_tuple', lit(box(t[1])))), lit(INT), args)
  if op == 'leafcall': return bind('py.call', leaf('f'), lit(INT), args)
def run(t, env, errors):
  op = t[0]
  if op == 'x' or op == 'y': return env[op]
  if op == 'lit': return t[1]
  a = run(t[-1], env, errors)
  if op == 'add':
    b = run(t[1], env, errors)
    return None if a is None or b is None else a + b
  if a is None: return None
  if op == 'wait': return a
  k = env['f'] if op == 'leafcall' else t[1]
  if bad(k, a): errors.add((k, a)); return None
  return value(k, a)
def leaves(t):
  if t[0] in ('x', 'y'): return {t[0]}
  s = {'f'} if t[0] == 'leafcall' else set()
  for u in t[1:]:
    if isinstance(u, tuple): s |= leaves(u)
  return s
def mades(t):
  s = {t[1]} if t[0] == 'made' else set()
  for u in t[1:]:
    if isinstance(u, tuple): s |= mades(u)
  return s
def constant(t):
  """Whether some function is applied to a constant (and so folded)."""
  if t[0] in ('call', 'made') and not leaves(t[-1]): return True
  return any(constant(u) for u in t[1:] if isinstance(u, tuple))
def gen(depth, base):
  n = choose(8) if depth else choose(3)
  if n == 0: return ('x',)
  if n == 1: return ('y',) if choose(2) else ('x',)
  if n == 2: return ('lit', choose(10)) if choose(2) else ('x',)
  if n == 3: return ('add', gen(depth - 1, base), gen(depth - 1, base))
  if n == 4: return ('call', base + choose(3), gen(depth - 1, base))
  if n in (5, 6): return ('made', base + choose(3), gen(depth - 1, base))
  if choose(2): return ('leafcall', gen(depth - 1, base))
  return ('wait', gen(depth - 1, base))

class Program:
  def __init__(self, t):
    self.t = t; self.expr = build(t); self.leaves = sorted(leaves(t)); self.mades = len(mades(t))
OPTIONS = [{}, {'enable_literal_folding': False}, {'enable_expr_stack_trace': False}, {'enable_expr_optimization': False}, {'enable_literal_folding': False, 'enable_expr_optimization': False}]

def find_boom(e):
  n = 0
  while e is not None and n < 10:
    if isinstance(e, Boom): return e.args
    e = e.__cause__ or e.__context__; n += 1
  return None
def judge(how, p, env, f, folding):
  """Runs f() and compares with the meaning of the program."""
  errors = set()
  want = run(p.t, env, errors)
  if not hasattr(tls, 'counts'): tls.counts = []
  tls.counts.append(0)
  try:
    try: r = unbox(f())
    except KeyboardInterrupt: raise
    except Exception as e:
      b = find_boom(e)
      check(errors, 'failed', how, p.t, env, type(e).__name__, e)
      check(b is not None, 'lost-error', how, p.t, env, type(e).__name__, e)
      check(b in errors, 'wrong-error', how, p.t, env, 'got', b, 'expected one of', errors)
      _sim.probe('error')
      return
  finally: n = tls.counts.pop()
  check(not errors, 'missing-error', how, p.t, env, r, errors)
  check(r == want, 'wrong-result', how, p.t, env, 'got', r, 'expected', want)
  _sim.probe('value')
  if folding == 0: check(n == p.mades, 'not-evaluated', how, p.t, env, 'made', n, 'functions, expected', p.mades)
  elif folding == 2: check(n == 0, 'evaluated-at-call', how, p.t)
  if folding == 1 and p.mades: _sim.probe('compiled' if n else 'cached')

def inputs(p):
  env = {'x': choose(20), 'y': choose(20), 'f': choose(3)}
  kw = {n: (obj(Fn(env['f'], False)) if n == 'f' else box(env[n])) for n in p.leaves}
  return env, kw
def evaluate(p, o):
  env, kw = inputs(p)
  if o == 0 and choose(2): f = lambda: clib.eval_expr(p.expr, **kw)
  else: f = lambda: clib.eval_expr(p.expr, OPTIONS[o], **kw)
  judge('eval_expr', p, env, f, 'enable_literal_folding' not in OPTIONS[o])
def invoke(name):
  a, b = choose(50), choose(50)
  args = (box(a), box(b))
  r = unbox(clib.invoke_op(name, args) if choose(2) else clib.invoke_op(name, list(args)))
  want = a + b if name == 'test.add' else a * b + 1
  check(r == want, 'wrong-result', 'invoke_op', name, a, b, 'got', r, 'expected', want)
def fresh(w):
  b = 100 + next(w.fresh) * 3
  return Program(('made', b, gen(1, b)))
def clear():
  _sim.probe('clear')
  clib.clear_eval_compile_cache()

def behave(where):
  """What Python code called from inside an evaluation or a destruction does."""
  if not W.active: return
  w = W.world
  if w.calm or getattr(tls, 'depth', 0) >= 2: return
  n = choose(12)
  if n < 6: return
  if n < 9:
    for _ in range(1 + choose(3)): _sim.yield_()
    return
  if next(w.budget) > 30: return
  tls.depth = getattr(tls, 'depth', 0) + 1
  try:
    _sim.probe('reentered-from-' + where)
    if n == 9 and not FULL: clear()
    elif n == 10 and choose(2): evaluate(w.programs[choose(len(w.programs))], choose(len(OPTIONS)))
    else: evaluate(fresh(w), 0)
  finally: tls.depth -= 1

# A compiled expression and its inputs, shared by threads.
class Shared:
  def __init__(self, p):
    self.p = p
    self.c = clib.CompiledExpr(p.expr, {n: OBJ if n == 'f' else INT for n in p.leaves}, options=OPTIONS[choose(3)])
def call_shared(s):
  env, kw = inputs(s.p)
  n = choose(3)
  if n == 0: f = lambda: s.c(*[kw[k] for k in s.p.leaves])
  elif n == 1: f = lambda: s.c(**kw)
  else: f = lambda: s.c.execute(kw)
  judge('CompiledExpr', s.p, env, f, 1)

# Arguments in a container that another thread keeps changing.
class Cell:
  def __init__(self, kind):
    self.kind = kind; self.log = []
    v = choose(20)
    self.log.append((v, [0, None]))
    self.box = {'x': box(v)} if kind else [box(v), box(1)]
    self.mu = threading.Lock()
def cell_set(c):
  with c.mu:
    v = choose(20)
    old = c.log[-1][1]
    new = [seq(), None]
    c.log.append((v, new))
    c.box['x' if c.kind else 0] = box(v)
    old[1] = seq()
def cell_eval(w, c):
  s0 = seq()
  try: r = unbox(w.slow.c.execute(c.box) if c.kind else clib.invoke_op('test.add', c.box))
  except Exception as e:
    b = find_boom(e)
    check(b is not None, 'failed', 'changing inputs', type(e).__name__, e)
    r = None
  s1 = seq()
  ok = []
  for v, (a, z) in list(c.log):
    if a < s1 and (z is None or z > s0):
      if c.kind: ok.append(run(w.slow.p.t, {'x': v}, set()))
      else: ok.append(v + 1)
  check(r in ok, 'wrong-result', 'changing inputs', 'got', r, 'expected one of', ok)
  _sim.probe('changing-inputs')

def worker(w, ops):
  for op, i, o in ops:
    if op == 7 and FULL and i > 1: op = 6
    if op < 6: evaluate(w.programs[i % len(w.programs)], o)
    elif op == 6: evaluate(fresh(w), o)
    elif op == 7: clear()
    elif op == 8: invoke(('test.add', 'test.mul')[i & 1])
    elif op == 9: call_shared(w.shared[i % len(w.shared)])
    elif op == 10: cell_set(w.cells[i & 1])
    elif op == 11: cell_eval(w, w.cells[i & 1])
    elif op == 12: _sim.yield_()

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (worker, cell_eval, cell_set, call_shared, evaluate, judge, behave, maker, Fn.__call__, invoke, fresh): watch_fn(f)

# A cache filled to the brim, whose oldest entries hold Python objects.
FILL = 1024
FULL = sys.full_cache
old = [Program(('made', i, ('x',))) for i in range(30)]
if FULL:
  for p in old:
    try: clib.eval_expr(p.expr, x=box(9))
    except Boom: pass
  for i in range(FILL - len(old)): clib.eval_expr(bind('test.add', leaf('x'), lit(box(i + 1000))), x=box(1))

def scenario():
  w = World()
  _sim.max_steps(60000000)
  _sim.preempt([0, 10, 40, 200][choose(4)])
  w.calm = choose(3) == 0
  w.fresh = itertools.count(); w.budget = itertools.count()
  w.programs = [Program(gen(1 + choose(3), 0)) for _ in range(1 + choose(4))]
  if FULL: w.programs += [old[choose(30)] for _ in range(1 + choose(2))]
  w.shared = []
  for _ in range(choose(3)):
    p = w.programs[choose(len(w.programs))]
    try: w.shared.append(Shared(p))
    except Boom: check(constant(p.t), 'failed', 'CompiledExpr', p.t); _sim.probe('folding-error')
  w.slow = Shared(Program(('call', 1, ('wait', ('x',)))))
  w.cells = [Cell(0), Cell(1)]
  W.world = w; W.active = True
  blocked = choose(2) == 0
  if blocked: gate(False)
  threads = []
  for t in range(1 + choose(4)):
    ops = [(choose(13), choose(8), choose(len(OPTIONS)) if choose(2) else 0) for _ in range(1 + choose(5))]
    ops = [(o if w.shared or o != 9 else 0, a, b) for o, a, b in ops]
    threads.append(threading.Thread(target=worker, args=(w, ops)))
  for t in threads: t.start()
  for _ in range(choose(6)):
    if blocked:
      _sim.yield_()
      if choose(2): cell_set(w.cells[choose(2)])
    else: worker(w, [(choose(13) if w.shared else choose(9), choose(8), 0)])
  gate(True)
  for t in threads: t.join()
  W.active = False
  for p in w.programs: evaluate(p, choose(len(OPTIONS)))
  # Nothing but the caches keeps the functions made while compiling.
  if FULL and choose(6): return
  clib.clear_eval_compile_cache()
  del p
  w.programs = w.shared = w.slow = W.world = None
  made, died = next(W.made), next(W.died)
  check(made == died, 'kept-alive', made - died, 'functions outlive the caches')
)PY";

inline bool full_cache;
inline void more_all() {
  PySys_SetObject("full_cache", full_cache ? Py_True : Py_False);
  more();
}
extern "C" void sim_scenario() { pyhost::run(); }
#endif
