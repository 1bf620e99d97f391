// C26: expression views and value classes.
//
// Real: py_expr_view.cc, py_expr.cc, expr_view.py, py_qvalue_specialization.cc,
// py_qvalue.cc, the operator registry and everything below, and CPython.
#include "pyeval.h"
#include "arolla/expr/annotation_expr_operators.h"
#include "arolla/expr/basic_expr_operator.h"
#include "py/arolla/abc/py_expr_view.h"
#include "py/arolla/abc/py_misc.h"

namespace {
using namespace arolla::python;
using namespace arolla::expr;
using namespace arolla;

ExprOperatorSignature Sig(const char* policy) {
  ExprOperatorSignature s{{"x"}};
  s.aux_policy_name = policy;
  return s;
}
struct Op : public ExprOperatorWithFixedSignature {
  Op(const char* name, const char* policy, const char* key, bool annotation)
      : ExprOperatorWithFixedSignature(name, Sig(policy), "", FingerprintHasher("views").Combine(absl::string_view(name), absl::string_view(policy), absl::string_view(key), annotation).Finish(),
                                       annotation ? ExprOperatorTags::kAnnotation : ExprOperatorTags::kNone),
        key(key), annotation(annotation) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes> in) const final {
    if (annotation) return in[0];
    return ExprAttributes(GetQType<int64_t>());
  }
  absl::string_view py_qvalue_specialization_key() const final { return key; }
  std::string key;
  bool annotation;
};
ExprOperatorPtr make_op(const char* name, const char* policy, const char* key, int annotation) {
  return std::make_shared<Op>(name, policy, key, annotation);
}
QTypePtr as_qtype(PyObject* o) { return UnsafeUnwrapPyQValue(o).UnsafeAs<QTypePtr>(); }

PyObject* p_make_op(PyObject*, PyObject* args) {
  const char *n, *p, *k; int a;
  if (!PyArg_ParseTuple(args, "sssi", &n, &p, &k, &a)) return nullptr;
  return WrapAsPyQValue(TypedValue::FromValue(make_op(n, p, k, a)));
}
PyObject* p_set_op(PyObject*, PyObject* args) {
  const char *n, *p; int a;
  if (!PyArg_ParseTuple(args, "szi", &n, &p, &a)) return nullptr;
  ExprOperatorRegistry::GetInstance()->UnsafeUnregister(n);
  if (p && !RegisterOperator(n, make_op(n, p, "", a)).ok()) pyhost::die(n);
  Py_RETURN_NONE;
}
PyObject* p_reg_aux(PyObject*, PyObject* args) {
  const char *a, *m; PyObject* o;
  if (!PyArg_ParseTuple(args, "ssO", &a, &m, &o)) return nullptr;
  RegisterExprViewMemberForAuxPolicy(a, m, o);
  Py_RETURN_NONE;
}
PyObject* p_rm_aux(PyObject*, PyObject* args) {
  const char* a;
  if (!PyArg_ParseTuple(args, "s", &a)) return nullptr;
  RemoveExprViewForAuxPolicy(a);
  Py_RETURN_NONE;
}
PyObject* p_reg_op(PyObject*, PyObject* args) {
  const char *k, *n, *m; PyObject* o;
  if (!PyArg_ParseTuple(args, "sssO", &k, &n, &m, &o)) return nullptr;
  RegisterExprViewMemberForOperator(k, n, m, o);
  Py_RETURN_NONE;
}
PyObject* p_rm_op(PyObject*, PyObject* args) {
  const char *k, *n;
  if (!PyArg_ParseTuple(args, "ss", &k, &n)) return nullptr;
  RemoveExprViewForOperator(k, n);
  Py_RETURN_NONE;
}
PyObject* p_reg_qtype(PyObject*, PyObject* args) {
  PyObject *q, *o; const char* m;
  if (!PyArg_ParseTuple(args, "OsO", &q, &m, &o)) return nullptr;
  RegisterExprViewMemberForQType(as_qtype(q), m, o);
  Py_RETURN_NONE;
}
PyObject* p_rm_qtype(PyObject*, PyObject* q) {
  RemoveExprViewForQType(as_qtype(q));
  Py_RETURN_NONE;
}
PyObject* p_reg_family(PyObject*, PyObject* args) {
  const char *k, *m; PyObject* o;
  if (!PyArg_ParseTuple(args, "ssO", &k, &m, &o)) return nullptr;
  RegisterExprViewMemberForQTypeSpecializationKey(k, m, o);
  Py_RETURN_NONE;
}
PyObject* p_rm_family(PyObject*, PyObject* args) {
  const char* k;
  if (!PyArg_ParseTuple(args, "s", &k)) return nullptr;
  RemoveExprViewForQTypeSpecializationKey(k);
  Py_RETURN_NONE;
}
PyObject* ok(bool r) {
  if (!r) return nullptr;
  Py_RETURN_NONE;
}
PyObject* p_class_by_key(PyObject*, PyObject* args) {
  const char* k; PyObject* t;
  if (!PyArg_ParseTuple(args, "sO", &k, &t)) return nullptr;
  return ok(t == Py_None ? RemovePyQValueSpecializationByKey(k) : RegisterPyQValueSpecializationByKey(k, t));
}
PyObject* p_class_by_qtype(PyObject*, PyObject* args) {
  PyObject *q, *t;
  if (!PyArg_ParseTuple(args, "OO", &q, &t)) return nullptr;
  return ok(t == Py_None ? RemovePyQValueSpecializationByQType(as_qtype(q)) : RegisterPyQValueSpecializationByQType(as_qtype(q), t));
}
// Wraps a value once more.
PyObject* p_rewrap(PyObject*, PyObject* a) {
  return WrapAsPyQValue(TypedValue(UnsafeUnwrapPyQValue(a)));
}
PyObject* p_rewrap_expr(PyObject*, PyObject* a) {
  return WrapAsPyExpr(ExprNodePtr(UnsafeUnwrapPyExpr(a)));
}
void more() {
  static PyMethodDef defs[] = {
      {"make_op", p_make_op, METH_VARARGS, nullptr}, {"set_op", p_set_op, METH_VARARGS, nullptr},
      {"register_expr_view_member_for_aux_policy", p_reg_aux, METH_VARARGS, nullptr},
      {"remove_expr_view_for_aux_policy", p_rm_aux, METH_VARARGS, nullptr},
      {"register_expr_view_member_for_operator", p_reg_op, METH_VARARGS, nullptr},
      {"remove_expr_view_for_operator", p_rm_op, METH_VARARGS, nullptr},
      {"register_expr_view_member_for_qtype", p_reg_qtype, METH_VARARGS, nullptr},
      {"remove_expr_view_for_qtype", p_rm_qtype, METH_O, nullptr},
      {"register_expr_view_member_for_qtype_specialization_key", p_reg_family, METH_VARARGS, nullptr},
      {"remove_expr_view_for_qtype_specialization_key", p_rm_family, METH_VARARGS, nullptr},
      {"class_by_key", p_class_by_key, METH_VARARGS, nullptr}, {"class_by_qtype", p_class_by_qtype, METH_VARARGS, nullptr},
      {"rewrap", p_rewrap, METH_O, nullptr}, {"rewrap_expr", p_rewrap_expr, METH_O, nullptr},
      kDefPyGetOperatorSignature, {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_views", nullptr, -1, defs};
  pyhost::native_module("_views", [] { return PyModule_Create(&def); });
}
}  // namespace

static const char kScript[] = R"PY(
import itertools
clib = _abc_clib
native = sys.modules['_views']
clib.get_operator_signature = native.get_operator_signature
fake_module('arolla.abc.operator', Operator=clib.QValue, RegisteredOperator=clib.QValue)
fake_module('arolla.abc.qtype', QValue=clib.QValue, QType=clib.QType)
fake_module('arolla.abc.signature', get_operator_signature=native.get_operator_signature)
fake_module('arolla.abc.utils', get_type_name=lambda t: t.__name__)
for n in ('operator', 'qtype', 'signature', 'utils'): setattr(_abc, n, sys.modules['arolla.abc.' + n])
choose, seq = _sim.choose, _sim.seq
box, unbox, lit, leaf = clib.int64, clib.unint64, clib.literal, clib.leaf
Expr, QValue = clib.Expr, clib.QValue
tls = threading.local()
REG = '::arolla::expr::RegisteredOperator'
TUPLE = '::arolla::TupleQType'
INT = clib.qtype_of(box(1)); PAIR = clib.qtype_of(clib.make_tuple(box(1), box(2))); ONE = clib.qtype_of(clib.make_tuple(box(1)))
QTYPES = {'int': INT, 'pair': PAIR, 'one': ONE}
POLICIES = ['', 'A', 'B']
OPS = ['view.op0', 'view.op1', 'view.ann0']
class World: pass
W = World()
W.made = itertools.count(); W.died = itertools.count(); W.active = False; W.version = itertools.count(1)

# The registries as the harness knows them: a list of (from, to, state); `to`
# is when the change that ended the state was complete.
def change(key, update, f, *args):
  w = W.world
  rec = w.states[-1]
  new = dict(rec[2]); update(new)
  nxt = [seq(), 1 << 62, new]
  w.states.append(nxt)
  f(*args)
  rec[1] = seq()
def set_member(key, name, member, f, *args):
  spec = member.spec if isinstance(member, Member) else None
  def update(s): s[key] = dict(s.get(key, ())); s[key][name] = spec
  change(key, update, f, *args, name, member.value if spec else member)
def drop(key, f, *args):
  change(key, lambda s: s.pop(key, None), f, *args)
def window(w, a, b):
  return [s for f, t, s in w.states if f <= b and t >= a]

def reg_aux(p, n, m): set_member(('aux', p), n, m, native.register_expr_view_member_for_aux_policy, p)
def rm_aux(p): drop(('aux', p), native.remove_expr_view_for_aux_policy, p)
def reg_op(k, o, n, m): set_member(('op', k, o), n, m, native.register_expr_view_member_for_operator, k, o)
def rm_op(k, o): drop(('op', k, o), native.remove_expr_view_for_operator, k, o)
def qname(q): return next(n for n, x in QTYPES.items() if x is q)
def reg_qtype(q, n, m): set_member(('qtype', qname(q)), n, m, native.register_expr_view_member_for_qtype, q)
def rm_qtype(q): drop(('qtype', qname(q)), native.remove_expr_view_for_qtype, q)
def reg_family(k, n, m): set_member(('family', k), n, m, native.register_expr_view_member_for_qtype_specialization_key, k)
def rm_family(k): drop(('family', k), native.remove_expr_view_for_qtype_specialization_key, k)
clib.register_expr_view_member_for_aux_policy = lambda p, n, m: reg_aux(p, n, wrapped(m))
clib.remove_expr_view_for_aux_policy = rm_aux
clib.register_expr_view_member_for_operator = lambda k, o, n, m: reg_op(k, o, n, wrapped(m))
clib.remove_expr_view_for_operator = rm_op
clib.register_expr_view_member_for_qtype = lambda q, n, m: reg_qtype(q, n, wrapped(m))
clib.remove_expr_view_for_qtype = rm_qtype
clib.register_expr_view_member_for_qtype_specialization_key = lambda k, n, m: reg_family(k, n, wrapped(m))
clib.remove_expr_view_for_qtype_specialization_key = rm_family
view = source_module('arolla.abc.expr_view', 'py/arolla/abc/expr_view.py')
watch_module(view)
TARGETS = ([(reg_aux, rm_aux, (p,), lambda v, p=p: view.set_expr_view_for_aux_policy(p, v)) for p in POLICIES] +
           [(reg_op, rm_op, (REG, o), lambda v, o=o: view.set_expr_view_for_registered_operator(o, v)) for o in OPS] +
           [(reg_op, rm_op, (k, ''), lambda v, k=k: view.set_expr_view_for_operator_family(k, v)) for k in (REG, 'fam.plain', 'fam.ann')] +
           [(reg_op, rm_op, (k, o), None) for k, o in (('fam.plain', 'raw0'), ('fam.ann', 'rawann0'))] +
           [(reg_qtype, rm_qtype, (q,), lambda v, q=q: view.set_expr_view_for_qtype(q, v)) for q in (INT, PAIR)] +
           [(reg_family, rm_family, (TUPLE,), lambda v: view.set_expr_view_for_qtype_family(TUPLE, v))])

class Bad(Exception): pass
class Token:
  def __init__(self, v): self.v = v; self.alive = True; next(W.made)
  def use(self, *args):
    check(self.alive, 'used-after-death', self.v)
    behave('member')
    check(self.alive, 'used-after-death', self.v)
    if self.v % 13 == 5: raise Bad(self.v)
    return (self.v,) + args
  def __del__(self):
    self.alive = False
    next(W.died)
    behave('death')
class Callable:
  """A member that is not a function: called without `self`."""
  def __init__(self, t): self.t = t
  def __call__(self, *a): return self.t.use(*ids(a))
def ids(a): return tuple('expr' if isinstance(x, Expr) else x for x in a)
class Member: pass

def make_member(name, kind=None):
  v = next(W.version)
  t = Token(v)
  m = Member()
  if name[0] == '_': kind = 'function'
  elif kind is None: kind = ('value', 'property', 'function', 'callable', 'static')[choose(5)]
  m.spec = (v, kind)
  if kind == 'value': m.value = t
  elif kind == 'property': m.value = property(lambda self, t=t: t.use(*ids((self,))))
  elif kind == 'function': m.value = lambda *a, t=t: t.use(*ids(a))
  elif kind == 'callable': m.value = Callable(t)
  else: m.value = staticmethod(lambda *a, t=t: t.use(*ids(a)))
  return m
def wrapped(value):
  m = Member(); m.value = value
  m.spec = (None, 'stub')
  for k, s in W.world.class_members:
    if k is value: m.spec = s
  return m
NAMES = ['m0', 'm1', '__getattr__', '__call__', '__getitem__', '__add__', '__radd__', '__eq__', '__lt__', '__neg__', '__format__', '_arolla_sequence_getitem_', 'm2']
def any_name(): return NAMES[(choose(5), choose(len(NAMES)))[choose(2)]]

def set_one(w):
  reg, rm, args, whole = TARGETS[choose(len(TARGETS))]
  reg(*args, *(lambda n: (n, make_member(n)))(any_name()))
def remove(w):
  reg, rm, args, whole = TARGETS[choose(len(TARGETS))]
  rm(*args)
def set_class(w):
  reg, rm, args, whole = TARGETS[choose(len(TARGETS))]
  if whole is None: return
  n = choose(4)
  if n == 0: whole(None)
  else:
    members = {k: make_member(k) for k in {any_name() for _ in range(n)} if k != '_arolla_sequence_getitem_'}
    w.class_members.extend((m.value, m.spec) for m in members.values())
    whole(type('V', (view.ExprView,), {k: m.value for k, m in members.items()}))
  _sim.probe('view-class')
def set_op(w):
  name = OPS[choose(3)]
  n = choose(8)
  p = None if n == 0 else POLICIES[choose(3)]
  a = choose(2) if n == 1 else name == 'view.ann0'
  change(None, lambda s: s.__setitem__(('reg', name), None if p is None else (p, a)), native.set_op, name, p, int(a))
  _sim.probe('operator-changed')

# What an expression shows in a state.
def views(s, info):
  qtype, ops = info
  r = []
  if qtype:
    v = s.get(('qtype', qtype))
    if v is None and qtype != 'int': v = s.get(('family', TUPLE))
    if v is not None: r.append(v)
  for op in ops:
    key, name = (REG, op[1]) if op[0] == 'reg' else op[1:3]
    v = s.get(('op', key, name))
    if v is None: v = s.get(('op', key, ''))
    if v is not None: r.append(v)
    if op[0] == 'reg':
      d = s[('reg', name)]
      if d is None: return []
    else: d = op[3:]
    policy, annotation = d
    if not annotation:
      if ('aux', policy) in s: r.append(s[('aux', policy)])
      return r
  if ('aux', '') in s: r.append(s[('aux', '')])
  return r
def find(vs, name):
  for v in vs:
    if name in v: return v[name]
USES = {
    'attr': (lambda e, n: getattr(e, n)), '__call__': (lambda e, n: e(1, 2)), '__getitem__': (lambda e, n: e['k']), '__add__': (lambda e, n: e + 3),
    '__radd__': (lambda e, n: 3 + e), '__eq__': (lambda e, n: e == 4), '__lt__': (lambda e, n: e < 5), '__neg__': (lambda e, n: -e),
    '__format__': (lambda e, n: Expr.__format__(e, 'zz')), '_arolla_sequence_getitem_': (lambda e, n: next(iter(e))), 'dir': (lambda e, n: dir(e))}
ARGS = {'__call__': ('expr', 1, 2), '__getitem__': ('expr', 'k'), '__add__': ('expr', 3), '__radd__': ('expr', 3), '__eq__': ('expr', 4), '__lt__': ('expr', 5),
        '__neg__': ('expr',), '__format__': ('expr', 'zz'), '_arolla_sequence_getitem_': ('expr', 0)}
MISSING = {'__format__': ValueError}
PLAIN = None
def tuple_is(r, *want): return type(r) is tuple and r == want
def explain(s, info, what, name, good, r):
  vs = views(s, info)
  if what == 'dir': return good and set(r) == PLAIN | {n for v in vs for n in v}
  if what == 'attr':
    m = find(vs, name)
    args = ()
    if m is not None:
      v, kind = m
      if kind == 'value': return good and type(r) is Token and r.v == v
      if kind == 'callable': return good and type(r) is Callable and r.t.v == v
      if kind == 'function' or kind == 'static': return good and callable(r) and bound(r, kind) == v
      args = ('expr',)
    else:
      m = find(vs, '__getattr__')
      if m is None: return not good and type(r) is AttributeError
      v, kind = m
      args = ('expr', name)
  else:
    m = find(vs, what)
    if m is None: return not good and type(r) is MISSING.get(what, TypeError)
    v, kind = m
    args = ARGS[what]
  if v % 13 == 5: return not good and type(r) is Bad and r.args == (v,)
  return good and tuple_is(r, v, *args)
def bound(r, kind):
  if hasattr(r, '__func__') != (kind == 'function'): return None
  d = getattr(r.__func__ if kind == 'function' else r, '__kwdefaults__', None)
  return d and d['t'].v
def use(w, e=None, calm=False):
  i = choose(len(w.exprs)) if e is None else e
  e, info = w.exprs[i]
  if choose(6) == 0: e = native.rewrap_expr(e)
  n = choose(14)
  what = 'attr' if n < 5 else 'dir' if n == 5 else ('__call__', '__getitem__', '__add__', '__radd__', '__eq__', '__lt__', '__neg__', '__format__', '_arolla_sequence_getitem_')[choose(9)] if n < 10 else ('__call__', '__getitem__')[choose(2)]
  name = ('m0', 'm1', 'm2', 'other')[choose(4)]
  a = seq()
  try: good, r = True, USES[what](e, name)
  except Exception as x: good, r = False, x.with_traceback(None)
  b = seq()
  cands = window(w, a, b)
  if not any(explain(s, info, what, name, good, r) for s in cands):
    fail('wrong-view', what, name, 'of', info, 'gives', describe(r), 'possible', [[find(views(s, info), x) for x in (name, '__getattr__', what)] for s in cands[:4]])
  if what == 'attr' and good and type(r).__name__ in ('method', 'function'):
    try: v = r(7)
    except Bad as x: v = x.args
    v0 = (r.__func__ if hasattr(r, '__func__') else r).__kwdefaults__['t'].v
    check(v[0] == v0 and (v0 % 13 == 5 or v[1:] == (('expr', 7) if hasattr(r, '__func__') else (7,))), 'wrong-call', v, v0)
    _sim.probe('bound')
  _sim.probe(what if what in ('attr', 'dir') else 'operator')
  _sim.probe('shown' if good else 'missing')
  if len(cands) > 1: _sim.probe('concurrent-change')
def describe(r): return (r.v if isinstance(r, Token) else r.t.v if isinstance(r, Callable) else r)

# The classes of values.
VALUES = {'int': (box(1), None), 'pair': (clib.make_tuple(box(1), box(2)), TUPLE), 'one': (clib.make_tuple(box(1)), TUPLE)}
def set_class_of_values(w):
  n = choose(4)
  cls = None if choose(3) == 0 else w.classes[choose(len(w.classes))]
  key = ('class-family', TUPLE) if n == 0 else ('class', ('int', 'pair', 'one')[n - 1])
  def update(s): s[key] = cls
  if n == 0: change(key, update, native.class_by_key, TUPLE, cls)
  else: change(key, update, native.class_by_qtype, QTYPES[key[1]], cls)
def make_class():
  class C(QValue):
    def _arolla_init_(self):
      C.initialized += 1
      n = C.initialized
      behave('init')
      check(type(self) is C, 'wrong-class')
      self.mark = n
  C.initialized = 0
  return C
def wrap(w):
  q = list(VALUES)[choose(3)]
  x, family = VALUES[q]
  a = seq()
  r = native.rewrap(x)
  b = seq()
  cands = []
  for s in window(w, a, b):
    c = s.get(('class', q)) or family and s.get(('class-family', family)) or QValue
    cands.append(c)
  check(type(r) in cands, 'wrong-value-class', q, type(r), cands)
  if type(r) is not QValue: check(hasattr(r, 'mark'), 'value-not-initialized'); _sim.probe('value-class')
  check(r.fingerprint == x.fingerprint, 'another-value')

def behave(where):
  if not W.active: return
  w = W.world
  if w.calm or getattr(tls, 'depth', 0) >= 2: return
  n = choose(10)
  if n < 3: return
  if n < 6:
    for _ in range(1 + choose(3)): _sim.yield_()
    return
  if next(w.budget) > 24: return
  tls.depth = getattr(tls, 'depth', 0) + 1
  try:
    _sim.probe('reentered-from-' + where)
    if n == 6: set_one(w)
    elif n == 7: remove(w) if choose(2) else many(w)
    elif n == 8: use(w)
    else: (use, wrap, set_op, set_class_of_values)[choose(4)](w)
  finally: tls.depth -= 1
def many(w):
  """Unrelated registrations, enough to make the tables move."""
  for _ in range(1 + choose(10)):
    n = 'Q%d' % next(w.extra)
    if choose(2): reg_aux(n, 'm0', make_member('m0', 'value'))
    else: reg_op('fam.extra', n, 'm0', make_member('m0', 'value'))
    w.extras.append(n)
def worker(w, ops):
  for op in ops:
    if op < 7: use(w)
    elif op < 11: set_one(w)
    elif op == 11: remove(w)
    elif op == 12: set_class(w)
    elif op == 13: set_op(w)
    elif op == 14: wrap(w)
    elif op == 15: set_class_of_values(w)
    elif op == 16: many(w)
    elif op == 17: _sim.yield_()

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (worker, behave, many, set_one, remove, set_class, Token.use): watch_fn(f)

def scenario():
  global PLAIN
  if PLAIN is None: PLAIN = set(dir(Expr))
  w = World()
  _sim.max_steps(60000000)
  _sim.preempt([0, 10, 40, 200][choose(4)])
  w.calm = choose(4) == 0
  w.budget = itertools.count(); w.extra = itertools.count(); w.extras = []; w.class_members = []
  w.states = [[seq(), 1 << 62, {}]]
  w.classes = [make_class() for _ in range(2)]
  W.world = w
  for o in OPS: change(None, lambda s: s.__setitem__(('reg', o), ('A' if o[-1] == '0' else 'B', o == 'view.ann0')), native.set_op, o, 'A' if o[-1] == '0' else 'B', int(o == 'view.ann0'))
  raw = {'raw0': native.make_op('raw0', 'A', 'fam.plain', 0), 'raw1': native.make_op('raw1', 'B', 'fam.plain', 0), 'rawann0': native.make_op('rawann0', 'A', 'fam.ann', 1)}
  RAW = {'raw0': ('raw', 'fam.plain', 'raw0', 'A', 0), 'raw1': ('raw', 'fam.plain', 'raw1', 'B', 0), 'rawann0': ('raw', 'fam.ann', 'rawann0', 'A', 1)}
  base = [(leaf('x'), (None, ())), (lit(box(1)), ('int', ())), (lit(VALUES['pair'][0]), ('pair', ())), (lit(VALUES['one'][0]), ('one', ()))]
  w.exprs = [base[choose(4)]]
  for _ in range(1 + choose(4)):
    e, (q, ops) = (base[choose(4)], w.exprs[choose(len(w.exprs))])[choose(2)]
    o = (OPS + ['view.ann0'] + list(RAW))[choose(7)]
    if o in RAW: x, p, a = raw[o], RAW[o], RAW[o][4]
    else: x, p, a = o, ('reg', o), o == 'view.ann0'
    w.exprs.append((clib.make_operator_node(x, (e,)), (q if a else 'int', (p,) + ops)))
  del e, x
  W.active = True
  for _ in range(choose(30)): set_one(w)
  threads = []
  for t in range(choose(4)):
    ops = [choose(18) for _ in range(1 + choose(7))]
    threads.append(threading.Thread(target=worker, args=(w, ops)))
  for t in threads: t.start()
  worker(w, [choose(18) for _ in range(choose(10))])
  for t in threads: t.join()
  del threads
  W.active = False
  for i in range(len(w.exprs)): use(w, i)
  wrap(w)
  # Nothing but the registry (and the expressions that showed a member) keeps a member.
  for reg, rm, args, whole in TARGETS: rm(*args)
  for n in w.extras: rm_aux(n); rm_op('fam.extra', n)
  for q in ('int', 'pair', 'one'): native.class_by_qtype(QTYPES[q], None)
  native.class_by_key(TUPLE, None)
  for i in range(len(w.exprs)): use(w, i); dir(w.exprs[i][0])
  for e, info in base: dir(e)
  del e
  w.class_members = None
  if choose(2): w.exprs = None; base = None
  gc.collect()
  made, died = next(W.made), next(W.died)
  check(made == died, 'kept-alive', made - died, 'members outlive their views')
  w.exprs = base = None
  W.world = None
)PY";
extern "C" void sim_scenario() { pyhost::run(); }
extern "C" const char* const sim_harness_name = "pyviews";
extern "C" void sim_init() { pyhost::boot_eval(kScript, more); }
