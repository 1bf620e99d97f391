// C25: argument binding policies.
//
// Real: py_aux_binding_policy.cc, py_abc_binding_policies.cc, py_bind.cc,
// py_eval.cc, py_signature.cc, aux_binding_policy.py and everything below, and
// CPython.
#include "pyeval.h"
#include "py/arolla/abc/py_abc_binding_policies.h"
#include "py/arolla/abc/py_misc.h"

namespace {
using namespace arolla::python;

PyObject* ok(bool r) {
  if (!r) return nullptr;
  Py_RETURN_NONE;
}
PyObject* p_reg(PyObject*, PyObject* args) {
  const char* n; PyObject *a, *b, *c;
  if (!PyArg_ParseTuple(args, "sOOO", &n, &a, &b, &c)) return nullptr;
  return ok(RegisterPyAuxBindingPolicy(n, a, b, c));
}
PyObject* p_reg_adhoc(PyObject*, PyObject* args) {
  const char* n; PyObject *a, *b, *c;
  if (!PyArg_ParseTuple(args, "sOOO", &n, &a, &b, &c)) return nullptr;
  return ok(RegisterPyAdHocAuxBindingPolicy(n, a, b, c));
}
PyObject* p_reg_classic(PyObject*, PyObject* args) {
  const char* n; PyObject *a, *b;
  if (!PyArg_ParseTuple(args, "sOO", &n, &a, &b)) return nullptr;
  return ok(RegisterPyClassicAuxBindingPolicyWithCustomBoxing(n, a, b));
}
PyObject* p_remove(PyObject*, PyObject* a) {
  const char* n = PyUnicode_AsUTF8(a);
  if (!n) return nullptr;
  return ok(RemoveAuxBindingPolicy(n));
}
void def_op(const char* name, const char* sig, bool second, arolla::QTypePtr q) {
  using namespace arolla::expr;
  auto s = second ? ExprOperatorSignature::Make(sig, arolla::TypedValue::FromValue<int64_t>(5)) : ExprOperatorSignature::Make(sig);
  if (!s.ok()) pyhost::die(sig);
  auto r = RegisterBackendOperator(name, *s, ops::Ret(q));
  if (!r.ok()) pyhost::die(name);
}
void more() {
  using namespace arolla;
  auto q = GetQType<int64_t>();
  auto qexpr = [&](const char* name) {
    auto op = QExprOperatorFromFunction([](int64_t a, int64_t b) { return ops::add(a, b); });
    if (!OperatorRegistry::GetInstance()->RegisterOperator(name, *op).ok()) pyhost::die(name);
  };
  qexpr("pol.two"); def_op("pol.two", "x, y|P0", false, q);
  qexpr("pol.two_opt"); def_op("pol.two_opt", "x, y|P0:option", false, q);
  qexpr("pol.def"); def_op("pol.def", "x, y=|P1", true, q);
  def_op("pol.var", "x, *args|P2", false, q);
  def_op("pol.tag", "x, tag", false, q);
  static PyMethodDef defs[] = {
      {"register_aux_binding_policy_methods", p_reg, METH_VARARGS, nullptr},
      {"register_adhoc_aux_binding_policy_methods", p_reg_adhoc, METH_VARARGS, nullptr},
      {"register_classic_aux_binding_policy_with_custom_boxing", p_reg_classic, METH_VARARGS, nullptr},
      {"remove_aux_binding_policy", p_remove, METH_O, nullptr},
      kDefPyGetOperatorSignature, kDefPyUnsafeMakeRegisteredOperator, {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_policy", nullptr, -1, defs};
  pyhost::native_module("_policy", [] { return PyModule_Create(&def); });
}
}  // namespace

static const char kScript[] = R"PY(
import itertools, inspect
clib = _abc_clib
for _k, _v in vars(sys.modules['_policy']).items():
  if not _k.startswith('__'): setattr(clib, _k, _v)
fake_module('arolla.abc.expr', Expr=clib.Expr)
fake_module('arolla.abc.qtype', QValue=clib.QValue)
fake_module('arolla.abc.signature', Signature=object, get_operator_signature=clib.get_operator_signature, make_inspect_signature=lambda s: s)
fake_module('arolla.abc.utils', get_type_name=lambda t: t.__name__)
for n in ('expr', 'qtype', 'signature', 'utils'): setattr(_abc, n, sys.modules['arolla.abc.' + n])
pol = source_module('arolla.abc.aux_binding_policy', 'py/arolla/abc/aux_binding_policy.py')
choose, seq = _sim.choose, _sim.seq
box, unbox, lit, leaf = clib.int64, clib.unint64, clib.literal, clib.leaf
QValue, Expr = clib.QValue, clib.Expr
tls = threading.local()
INF = 1 << 62
OPS = {'pol.two': ('P0', ['x', 'y']), 'pol.two_opt': ('P0', ['x', 'y']), 'pol.def': ('P1', ['x', 'y=']), 'pol.var': ('P2', ['x', '*args'])}
NAMES = ['P0', 'P1', 'P2']

class Bad(Exception): pass
class Interrupt(KeyboardInterrupt): pass
ERRORS = {1: TypeError, 2: ValueError, 3: Interrupt, 4: Bad, 5: AttributeError}
def arg_error(n): return n % 16 if n % 16 in ERRORS else 0
def lit_error(n): return n % 16 - 5 if n % 16 in (7, 8, 9) else 0
class World: pass
W = World()
W.made = itertools.count(); W.died = itertools.count(); W.active = False; W.version = itertools.count(1)

def bind_ref(params, args, kwargs):
  """Python's rules; None when the call does not fit the parameters."""
  kwargs = dict(kwargs); r = []; args = list(args)
  for p in params:
    n = p.strip('=*')
    if p[0] == '*': r += [(n, a) for a in args]; args = []
    elif args:
      if n in kwargs: return None
      r.append((n, args.pop(0)))
    elif n in kwargs: r.append((n, kwargs.pop(n)))
    elif p[-1] == '=': r.append((n, None))
    else: return None
  return None if args or kwargs else r

class Policy:
  """One version of a policy, of any of the three kinds."""
  def __init__(self, v, kind, literal):
    self.v = v; self.kind = kind; self.literal = literal; self.alive = True
    self.result_kind = choose(8)
    self.mark = v if choose(3) else 0
    next(W.made)
  def boxed(self, a):
    check(self.alive, 'used-after-death', self.v)
    if isinstance(a, (QValue, Expr)): return a
    behave('boxing')
    e = arg_error(a)
    if e: raise ERRORS[e](self.v, a)
    check(self.alive, 'used-after-death', self.v)
    return box(a * 1000 + self.mark)
  def make_literal(self, q):
    check(self.alive, 'used-after-death', self.v)
    behave('literal')
    n = unbox(q)
    e = lit_error(n // 1000)
    if e: raise ERRORS[e](self.v, n // 1000)
    return clib.make_operator_node('pol.tag', (lit(q), lit(box(self.v))))
  def finish(self, r):
    if self.result_kind == 1: return list(r)
    if self.result_kind == 2: return r[:-1]
    if self.result_kind == 3: return 7
    if self.result_kind == 4: return r + (7,)
    return r
  def __del__(self):
    self.alive = False
    next(W.died)
    behave('death')
class ClassPolicy(Policy, pol.AuxBindingPolicy):
  def make_python_signature(self, signature):
    check(self.alive, 'used-after-death', self.v)
    behave('signature')
    if self.v % 11 == 3: raise Bad(self.v)
    return ('class', self.v, signature)
  def bind_arguments(self, signature, *args, **kwargs):
    behave('binding')
    params = ['*' + p.name if p.kind == 'variadic-positional' else p.name + '=' * (p.default is not None) for p in signature.parameters]
    m = bind_ref(params, args, kwargs)
    if m is None: raise TypeError('mismatch', self.v)
    defaults = {p.name: p.default for p in signature.parameters}
    return self.finish(tuple(self.boxed(a) if a is not None else defaults[n] for n, a in m))
class ClassPolicyPlain(ClassPolicy): make_literal = pol.AuxBindingPolicy.make_literal
class AdHoc(Policy):
  def __call__(self, x, /, *args, **kw):
    behave('binding')
    r = [self.boxed(x)] + [self.boxed(a) for a in args] + [self.boxed(a) for a in kw.values()]
    return self.finish(tuple(r))
class Classic(Policy): pass

def register(w, name, kind=None):
  v = next(W.version)
  if v > 900: return
  kind = choose(4) if kind is None else kind
  literal = choose(2)
  # What the registry holds from some moment of this call on.
  rec = [seq(), INF, None]
  if kind == 3:
    w.log[name].append(rec)
    pol.remove_aux_binding_policy(name)
  else:
    if kind == 0: p = (ClassPolicy if literal else ClassPolicyPlain)(v, 'class', literal)
    elif kind == 1: p = Classic(v, 'classic', literal)
    else: p = AdHoc(v, 'adhoc', literal)
    rec[0] = seq(); rec[2] = (v, p.kind, literal, p.result_kind, p.mark)
    w.log[name].append(rec)
    if kind == 0: pol.register_aux_binding_policy(name, p)
    elif kind == 1: pol.register_classic_aux_binding_policy_with_custom_boxing(name, p.boxed, make_literal_fn=p.make_literal if literal else None)
    else: pol.register_adhoc_aux_binding_policy(name, p, make_literal_fn=p.make_literal if literal else None)
  rec[1] = seq()
def possible(w, name, a, b):
  l = list(w.log[name])
  return [u[2] for u in l if u[0] < b and not any(t[0] > u[1] and t[1] < a for t in l)]

def gen_arg():
  n = choose(10)
  k = choose((2, 3, 40)[choose(3)])
  if n == 0: return leaf('x')
  if n == 1: return box(k)
  if n == 2: return 16 * k + choose(16)
  return 16 * k + (0, 10, 11, 12)[choose(4)]
def call(f, *a):
  try: return True, f(*a)
  except BaseException as e: return False, e.with_traceback(None)

# What a call may do, by the policy it used.
def same(got, want, literal, v):
  """A bound argument of an expression (or of a tuple, when literal is None)."""
  if isinstance(want, Expr): return isinstance(got, Expr) and got.fingerprint == want.fingerprint
  n = unbox(want) if isinstance(want, QValue) else want
  if literal is None: return isinstance(got, QValue) and unbox(got) == n
  if not literal: return got.is_literal and unbox(got.qvalue) == n
  d = got.node_deps
  return len(d) == 2 and unbox(d[0].qvalue) == n and unbox(d[1].qvalue) == v
def explain(how, params, args, kwargs, rec, good, r):
  """Whether the outcome is what the policy `rec` gives."""
  if rec is None: return not good and type(r) is RuntimeError and 'not found' in str(r)
  v, kind, literal, result_kind, mark = rec
  def failed(cls, a, where):
    """An exception of the policy's own code, passed on or wrapped."""
    through = (ValueError, Interrupt) if where == 'literal' else (TypeError, ValueError, Interrupt)
    if good: return False
    e = r
    if not issubclass(cls, through):
      if type(r) is not RuntimeError: return False
      e = r.__cause__
    return type(e) is cls and e.args == (v, a)
  m = bind_ref(params, args, kwargs)
  if kind == 'adhoc':
    if len(args) == 0: return not good and isinstance(r, TypeError)
    m = [(None, a) for a in list(args) + list(kwargs.values())]
  elif m is None: return not good and type(r) is TypeError
  want = []
  for i, (n, a) in enumerate(m):
    if a is None: want.append(box(5)); continue
    if isinstance(a, (QValue, Expr)): want.append(a); continue
    e = arg_error(a)
    if e:
      if kind == 'classic' and not good:
        notes = getattr(r if type(r) is not RuntimeError else r.__cause__, '__notes__', [])
        named = '`%s`' % (n if '*' + n not in params else '%s[%d]' % (n, i - [x for x, _ in m].index(n)))
        if not any(named in s for s in notes): return False
      return failed(ERRORS[e], a, 'boxing')
    want.append(a * 1000 + mark)
  if kind != 'classic':
    if result_kind in (3, 4): return not good and type(r) is RuntimeError
    if result_kind == 2: want.pop()
  least = len([p for p in params if p[0] != '*'])
  if len(want) < least or len(want) > least and params[-1][0] != '*': return not good and type(r) is RuntimeError
  if how == 'bind_arguments': return good and type(r) is tuple and len(r) == len(want) and all(same(g, x, None, v) for g, x in zip(r, want))
  if how == 'eval_op':
    for x in want:
      if isinstance(x, Expr): return not good and type(r) is TypeError
    return good and unbox(r) == sum(unbox(x) if isinstance(x, QValue) else x for x in want)
  if literal:
    for x in want:
      if isinstance(x, Expr): continue
      n = (unbox(x) if isinstance(x, QValue) else x) // 1000
      e = lit_error(n)
      if e: return failed(ERRORS[e], n, 'literal')
  return good and len(r.node_deps) == len(want) and all(same(g, x, literal, v) for g, x in zip(r.node_deps, want))

def bind(w, op=None, how=None, calls=1):
  op = op or list(OPS)[choose(4)]
  name, params = OPS[op]
  how = how or ('bind_op', 'bind_arguments', 'eval_op')[choose(3)]
  if how == 'eval_op' and op == 'pol.var': op = 'pol.two'; name, params = OPS[op]
  n = choose(8)
  args = tuple(gen_arg() for _ in range((2, 2, 1, 1, 2, 3, 0, 2)[n] + choose(3) * (op == 'pol.var')))
  kwargs = {}
  if n in (3, 6) or n == 4 and choose(3) == 0: kwargs['y'] = gen_arg()
  if n == 6: kwargs['x'] = gen_arg()
  if n == 7 and choose(3) == 0: kwargs['z'] = gen_arg()
  perform(w, how, op, args, kwargs, None)
FN = {'bind_op': clib.aux_bind_op, 'bind_arguments': clib.aux_bind_arguments, 'eval_op': clib.aux_eval_op}
def perform(w, how, op, args, kwargs, whole):
  name, params = OPS[op]
  f = FN[how]
  first = op if choose(2) else w.ops[op]
  s0 = seq()
  if whole is not None: good, r = call(lambda: f(*whole))
  elif kwargs: good, r = call(lambda: f(first, *args, **kwargs))
  else: good, r = call(lambda: f(first, *args))
  s1 = seq()
  cands = possible(w, name, s0, s1)
  check(any(explain(how, params, args, kwargs, c, good, r) for c in cands), 'wrong-binding', how, op, args, kwargs, 'got',
        (type(r).__name__, r, r.__cause__) if not good else describe(how, r), 'policies', cands)
  if not good and type(r) is not RuntimeError:
    for s in getattr(r, '__notes__', ()):
      check(sys.getrefcount(s) <= 3, 'leaked-note', s, sys.getrefcount(s))
      _sim.probe('note')
  _sim.probe('bound' if good else 'error')
  if len(cands) > 1: _sim.probe('concurrent-change')
def describe(how, r):
  if how == 'eval_op': return unbox(r)
  if how == 'bind_arguments': return [unbox(x) if isinstance(x, QValue) else 'expr' for x in r]
  return [unbox(x.qvalue) if x.is_literal else [unbox(y.qvalue) for y in x.node_deps if y.is_literal] for x in r.node_deps]
def shared(w):
  """A call whose positional arguments are a tuple other code can see."""
  i = choose(len(w.tuples))
  how, op, t = w.tuples[i]
  perform(w, how, op, t[1:], {}, t)
  _sim.probe('shared-tuple')
def look(w, where):
  for how, op, t in w.tuples: check(type(t[0]) is str and t[0] == op, 'argument-tuple-changed', 'seen from', where, how, op, t)
def signature(w):
  op = list(OPS)[choose(4)]
  name, params = OPS[op]
  s0 = seq()
  good, r = call(clib.aux_get_python_signature, op)
  s1 = seq()
  def fits(c):
    if c is None: return not good and type(r) is RuntimeError and 'not found' in str(r)
    v, kind = c[:2]
    if kind == 'class':
      if v % 11 == 3: return not good and type(r) is RuntimeError and type(r.__cause__) is Bad and r.__cause__.args == (v,)
      return good and type(r) is tuple and r[0] == 'class' and r[1] == v and [p.name for p in r[2].parameters] == [p.strip('=*') for p in params]
    if kind == 'adhoc': return good and isinstance(r, inspect.Signature)
    return good and type(r) is not tuple and not isinstance(r, inspect.Signature) and [p.name for p in r.parameters] == [p.strip('=*') for p in params]
  cands = possible(w, name, s0, s1)
  check(any(fits(c) for c in cands), 'wrong-signature', op, r, cands)
  _sim.probe('signature')

def behave(where):
  if not W.active: return
  w = W.world
  if w.calm or getattr(tls, 'depth', 0) >= 2: return
  look(w, where)
  n = choose(12)
  if n < 5: return
  if n < 9:
    for _ in range(1 + choose(3)): _sim.yield_()
    look(w, where)
    return
  if next(w.budget) > 20: return
  tls.depth = getattr(tls, 'depth', 0) + 1
  try:
    _sim.probe('reentered-from-' + where)
    if n == 9: register(w, NAMES[choose(3)])
    elif n == 10: many(w)
    else: bind(w)
  finally: tls.depth -= 1
def many(w):
  """Unrelated registrations, enough to make the table move."""
  for _ in range(1 + choose(12)):
    n = 'Q%d' % next(w.extra)
    if n not in w.log: w.log[n] = []
    register(w, n, 2)

def worker(w, ops):
  for op, i in ops:
    if op < 5: bind(w)
    elif op < 8: register(w, NAMES[i])
    elif op == 8: shared(w)
    elif op == 9: signature(w)
    elif op == 10: many(w)
    elif op == 11: _sim.yield_()

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (worker, behave, many, shared, signature, bind, Policy.boxed, Policy.make_literal, Policy.finish, ClassPolicy.bind_arguments, ClassPolicy.make_python_signature, AdHoc.__call__): watch_fn(f)

def scenario():
  w = World()
  _sim.max_steps(60000000)
  _sim.preempt([0, 10, 40, 200][choose(4)])
  w.calm = choose(4) == 0
  w.log = {n: [[seq(), seq(), None]] for n in NAMES}
  w.budget = itertools.count(); w.extra = itertools.count()
  w.ops = {n: clib.unsafe_make_registered_operator(n) for n in OPS}
  w.tuples = []
  for _ in range(1 + choose(2)):
    op = ('pol.two', 'pol.two_opt', 'pol.def')[choose(3)]
    w.tuples.append((list(FN)[choose(3)], op, (op, gen_arg(), gen_arg())))
  W.world = w; W.active = True
  for n in NAMES:
    if choose(5): register(w, n)
  threads = []
  for t in range(1 + choose(3)):
    ops = [(choose(12), choose(3)) for _ in range(1 + choose(6))]
    threads.append(threading.Thread(target=worker, args=(w, ops)))
  for t in threads: t.start()
  worker(w, [(choose(12), choose(3)) for _ in range(choose(6))])
  for t in threads: t.join()
  look(w, 'end')
  for op in OPS: bind(w, op)
  W.active = False
  for op in OPS: bind(w, op, ('bind_op', 'bind_arguments')[choose(2)])
  # Nothing but the registry keeps a policy.
  for n in list(w.log): pol.remove_aux_binding_policy(n)
  W.world = None
  gc.collect()
  made, died = next(W.made), next(W.died)
  check(made == died, 'kept-alive', made - died, 'policies outlive their registration')
)PY";
extern "C" void sim_scenario() { pyhost::run(); }
extern "C" const char* const sim_harness_name = "pypolicy";
extern "C" void sim_init() { pyhost::boot_eval(kScript, more); }
