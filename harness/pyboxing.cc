// C28: Python data boxed into values and back.
//
// Real: array_boxing.cc, scalar_boxing.cc, py_qvalue.cc, py_utils.cc, arrays
// and dense arrays, and CPython.  The harness brings the data: objects whose
// conversion is user code, lists that change meanwhile, iterators.
#include "pyeval.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/util/meta.h"
#include "arolla/util/unit.h"
#include "py/arolla/types/qtype/array_boxing.h"
#include "py/arolla/types/qtype/scalar_boxing.h"

namespace {
using namespace arolla::python;
using namespace arolla;

PyObject* p_fp(PyObject*, PyObject* a) { return PyUnicode_FromString(UnsafeUnwrapPyQValue(a).GetFingerprint().AsString().c_str()); }
PyObject* p_type(PyObject*, PyObject* a) { return PyUnicode_FromString(std::string(UnsafeUnwrapPyQValue(a).GetType()->name()).c_str()); }
// The same array in the other representation.
PyObject* p_sparse(PyObject*, PyObject* a) {
  TypedValue v = UnsafeUnwrapPyQValue(a);
  PyObject* r = nullptr;
  meta::foreach_type<meta::type_list<bool, Bytes, float, double, int32_t, int64_t, uint64_t, Text, Unit>>([&](auto m) {
    using T = typename decltype(m)::type;
    if (v.GetType() == GetDenseArrayQType<T>()) r = WrapAsPyQValue(TypedValue::FromValue(Array<T>(v.UnsafeAs<DenseArray<T>>()).ToSparseForm()));
  });
  if (v.GetType() == GetDenseArrayWeakFloatQType()) r = WrapAsPyQValue(*TypedValue::FromValueWithQType(Array<double>(v.UnsafeAs<DenseArray<double>>()).ToSparseForm(), GetArrayWeakFloatQType()));
  return r;
}
PyObject* new_module() {
  static PyMethodDef defs[] = {
      kDefPyDenseArrayBooleanFromValues, kDefPyDenseArrayBytesFromValues, kDefPyDenseArrayFloat32FromValues,
      kDefPyDenseArrayFloat64FromValues, kDefPyDenseArrayInt32FromValues, kDefPyDenseArrayInt64FromValues,
      kDefPyDenseArrayTextFromValues, kDefPyDenseArrayUInt64FromValues, kDefPyDenseArrayUnitFromValues,
      kDefPyDenseArrayWeakFloatFromValues, kDefPyGetArrayItem, kDefPyGetArrayPyValue,
      kDefPyValueBoolean, kDefPyValueBytes, kDefPyValueFloat, kDefPyValueIndex, kDefPyValueText, kDefPyValueUnit,
      kDefPyBoolean, kDefPyBytes, kDefPyFloat32, kDefPyFloat64, kDefPyInt32, kDefPyInt64, kDefPyText, kDefPyUInt64,
      kDefPyUnit, kDefPyWeakFloat,
      kDefPyOptionalBoolean, kDefPyOptionalBytes, kDefPyOptionalFloat32, kDefPyOptionalFloat64, kDefPyOptionalInt32,
      kDefPyOptionalInt64, kDefPyOptionalText, kDefPyOptionalUInt64, kDefPyOptionalUnit, kDefPyOptionalWeakFloat,
      {"fp", p_fp, METH_O, nullptr}, {"type", p_type, METH_O, nullptr}, {"sparse", p_sparse, METH_O, nullptr}, {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_boxing", nullptr, -1, defs};
  if (!InitArrayBoxing()) return nullptr;
  PyObject* m = PyModule_Create(&def);
  if (m) PyModule_AddObjectRef(m, "MissingOptionalError", PyExc_MissingOptionalError);
  return m;
}
void more() { pyhost::native_module("_boxing", new_module); }
}  // namespace

static const char kScript[] = R"PY(
import itertools, struct
clib = _abc_clib
bx = sys.modules['_boxing']
choose, seq = _sim.choose, _sim.seq
Missing = bx.MissingOptionalError
tls = threading.local()
class World: pass
W = World()
W.made = itertools.count(); W.died = itertools.count(); W.active = False; W.ids = itertools.count(1)
TYPES = ('boolean', 'bytes', 'float32', 'float64', 'int32', 'int64', 'text', 'uint64', 'unit', 'weak_float')
FAMILY = {t: t for t in ('boolean', 'bytes', 'text', 'unit')} | {t: 'float' for t in ('float32', 'float64', 'weak_float')} | {t: 'index' for t in ('int32', 'int64', 'uint64')}
RANGE = {'int32': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
class Bad(Exception): pass

# Objects whose conversion is user code.  Each call is written down.
def log(e):
  l = getattr(tls, 'log', None)
  if l is None: fail('conversion-outside-of-a-call', e)
  l.append(e)
def user_call(self, method, options):
  check(self.alive, 'used-after-death', method)
  r = options[choose(len(options))]
  k = next(W.ids)
  log((self.n, method, r, k))
  behave('conversion')
  check(self.alive, 'died-in-use', method)
  if r == 'raise': raise Bad(k)
  return eval(r)
class U:
  def __init__(self, n): self.n = n; self.alive = True; next(W.made)
  def __del__(self):
    self.alive = False
    next(W.died)
    behave('death')
  def __repr__(self): return user_call(self, 'repr', ("'<u%d>'" % self.n,) * 4 + ('raise',))
class UI(U):
  def __index__(self): return user_call(self, 'index', ('7', '-3', '0', '2**31', '-2**63', '2**64', '10**400', "'x'", 'None', 'raise') if not choose(3) else ('5', '6', '700'))
class UF(U):
  def __float__(self): return user_call(self, 'float', ('1.5', '-0.25', '0.1', '3', 'None', 'raise') if not choose(3) else ('2.5', '0.3'))
class UFI(UF, UI): pass
class UB(U):
  def __bytes__(self): return user_call(self, 'bytes', ("b'ab'", "b''", "b'\\0\\xff'", 'None', '5', "'x'", 'raise') if not choose(3) else ("b'long enough not to be kept inline'", "b'q'"))
class UM(U):
  def __buffer__(self, flags):
    r = user_call(self, 'buffer', ("bool_view(1)", "bool_view(0)", "memoryview(bytearray(1))", "memoryview(bytearray(1)).cast('?')", 'raise'))
    self.lent = r.obj
    return r
  def __release_buffer__(self, view):
    # Nobody looks any more.
    view.release()
    self.lent[0] = 1 - self.lent[0]
    self.lent = None
    behave('release')
def bool_view(x): return memoryview(bytearray((x,))).cast('?', ())
class UN(U): pass
# The method of this class is replaced and removed.
class UR(U): pass
CLASSES = (UI, UF, UFI, UB, UM, UN, UR)
def redefine(w):
  v = next(W.ids) if choose(4) else None
  def method(self, v=v): return user_call(self, 'bytes%d' % v, ("b'%d'" % v, "b'long enough not to be kept inline'", 'raise'))
  watch_fn(method)
  redefine_now(w, v, method)
  _sim.probe('redefined')
def redefine_now(w, v, method):
  w.methods.append((seq(), v))
  if v is not None: UR.__bytes__ = method
  elif '__bytes__' in vars(UR): del UR.__bytes__

# A token says what an element is; make() makes one.
PLAIN = {
  'any': ('None', 'True', 'False', '5', "'s'", "b'b'", '1.5', '(1,)', '10**400', "bool_view(1)", "bool_view(0)", "memoryview(b'\\1')"),
  'boolean': ('True', 'False', 'None', "bool_view(1)", "bool_view(0)"),
  'bytes': ("b''", "b'a'", "b'\\xff\\0z'", "b'x' * 40", 'None'),
  'float': ('0.0', '-0.0', '0.1', '1e30', "float('inf')", '3', '-2**70', 'True', 'None'),
  'index': ('0', '-1', '5', '2**31-1', '2**31', '-2**31', '-2**31-1', '2**63-1', '2**63', '-2**63', '-2**63-1', '2**64-1', '2**64', 'True', 'None', '7', '8', '9'),
  'text': ("''", "'a'", "'\\xe9\\U0001f600'", "'y' * 40", "'\\ud800'", "'a\\0b'", 'None'),
  'unit': ('True', 'True', 'None', 'None', 'False'),
}
BOXED = {'boolean': ('True', 'False'), 'bytes': ("b'q'", "b'w' * 40"), 'float32': ('0.1', '2.5'), 'float64': ('0.1', '-7.5'), 'int32': ('3', '-2**31'), 'int64': ('4', '2**40', '-2**63'), 'text': ("'t'", "'\\u20ac' * 20"), 'uint64': ('6', '2**64-1'), 'unit': ('True',), 'weak_float': ('0.3',)}
FITTING = {'boolean': (UM,), 'bytes': (UB, UB, UR), 'float': (UI, UF, UFI), 'index': (UI, UFI), 'text': (UN,), 'unit': (UN,)}
def token(T):
  f = FAMILY[T]
  n = choose(12)
  if n < 5:
    p = PLAIN[f]
    return ('py', p[choose(len(p))])
  if n < 7:
    p = [t for t in TYPES if FAMILY[t] == f or f == 'float' and FAMILY[t] == 'index']
    t = p[choose(len(p))]
    if choose(3) == 0: return ('qv', t, 'optional_', 'None')
    return ('qv', t, ('', 'optional_')[choose(2)], BOXED[t][choose(len(BOXED[t]))])
  if n < 10:
    c = FITTING[f]
    return ('u', CLASSES.index(c[choose(len(c))]), next(W.ids))
  if choose(3): return ('py', ('True' if f in ('boolean', 'unit') else PLAIN[f][1]))
  m = choose(3)
  if m == 0: return ('py', PLAIN['any'][choose(len(PLAIN['any']))])
  if m == 1:
    t = TYPES[choose(len(TYPES))]
    return ('qv', t, '', BOXED[t][0])
  return ('u', choose(len(CLASSES)), next(W.ids))
def make(tok):
  if tok[0] == 'py': return eval(tok[1])
  if tok[0] == 'u': return CLASSES[tok[1]](tok[2])
  if tok[1] == 'unit' and not tok[2]: return bx.unit()
  return getattr(bx, tok[2] + tok[1])(eval(tok[3]))

def make_all(toks):
  """The same token is the same object."""
  seen = {}
  r = []
  for t in toks:
    x = seen.get(t)
    if x is None:
      x = make(t)
      if t[0] == 'u': seen[t] = x
    r.append(x)
  return r
def tokens(T):
  toks = [token(T) for _ in range(choose(7))]
  if toks and choose(4) == 0: toks.append(toks[choose(len(toks))])
  if toks and choose(8) == 0:
    # Long.
    p = [('py', x) for x in PLAIN[FAMILY[T]]]
    q = (p[:4], p[-1:] + p[:1], p[:1])[choose(3)]
    fill = [q[choose(len(q))] for _ in range(20 + choose(100))]
    i = choose(len(toks))
    toks = toks[:i] + fill + toks[i:]
    _sim.probe('long')
  return toks

# What an element is for a type: ('v', value), ('m',) or ('e', class, detail).
class No(Exception): pass
def f32(x):
  try: return struct.unpack('f', struct.pack('f', x))[0]
  except OverflowError: return float('inf') if x > 0 else -float('inf')
class Log:
  def __init__(self, l, a=0, b=1 << 62): self.l = l; self.i = 0; self.a = a; self.b = b
  def maybe(self, tok):
    """Takes a call of a method that existed meanwhile, or none if there was none."""
    h = W.world.methods
    vs = [v for i, (t, v) in enumerate(h) if t < self.b and (i + 1 == len(h) or h[i + 1][0] > self.a)]
    if self.i < len(self.l) and self.l[self.i][0] == tok[2]:
      for v in vs:
        if self.l[self.i][1] == 'bytes%s' % v: return self.take(tok, self.l[self.i][1])
      raise No('stale-method', self.l[self.i], vs)
    if None not in vs: raise No('method-ignored', tok, vs)
    return ('e', TypeError, None)
  def take(self, tok, method):
    if self.i == len(self.l): raise No('not-converted', tok, method)
    n, m, r, k = self.l[self.i]
    if (n, m) != (tok[2], method): raise No('wrong-conversion', 'got', self.l[self.i], 'want', tok, method)
    self.i += 1
    if r == 'raise': return ('e', Bad, k)
    return ('v', eval(r))
def to_python(f, tok, l):
  """What py_boolean() and so on must give."""
  wrong = ('e', TypeError, None)
  if tok[0] == 'qv':
    g = FAMILY[tok[1]]
    if g != f and not (f == 'float' and g == 'index'): return wrong
    x = eval(tok[3])
    if x is None: return ('m',)
    if tok[1] == 'float32': x = f32(x)
    return ('v', float(x) if f == 'float' else x)
  if tok[0] == 'py':
    x = eval(tok[1])
    if x is None: return ('m',)
    if f == 'boolean':
      if isinstance(x, bool): return ('v', x)
      if isinstance(x, memoryview) and x.ndim == 0: return ('v', x[()])
      return wrong
    if f == 'unit': return ('v', True) if x is True else ('e', ValueError, None) if x is False else wrong
    if f == 'bytes': return ('v', x) if isinstance(x, bytes) else wrong
    if f == 'text': return ('v', x) if isinstance(x, str) else wrong
    if f == 'index': return ('v', int(x)) if isinstance(x, int) else wrong
    if not isinstance(x, (int, float)): return wrong
    try: return ('v', float(x))
    except OverflowError: return ('e', OverflowError, None)
  c = CLASSES[tok[1]]
  if f == 'boolean' and c is UM:
    r = l.take(tok, 'buffer')
    if r[0] == 'v': r = ('v', r[1][()]) if r[1].ndim == 0 else wrong
    return r
  if f == 'bytes' and c is UB:
    return l.take(tok, 'bytes')
  if f == 'bytes' and c is UR: return l.maybe(tok)
  if f == 'float' and issubclass(c, UF):
    r = l.take(tok, 'float')
    return wrong if r[0] == 'v' and type(r[1]) is not float else r
  if f in ('index', 'float') and issubclass(c, UI):
    r = l.take(tok, 'index')
    if r[0] == 'v' and type(r[1]) is not int: return wrong
    if r[0] == 'v' and f == 'float':
      try: return ('v', float(r[1]))
      except OverflowError: return ('e', OverflowError, None)
    return r
  return wrong
def convert(T, tok, l):
  """What an element must become in a value of the type."""
  r = to_python(FAMILY[T], tok, l)
  if r[0] != 'v': return r
  x = r[1]
  if T in RANGE and not RANGE[T][0] <= x <= RANGE[T][1]:
    if tok[0] == 'u':
      s = l.take(tok, 'repr')
      if s[0] == 'e': return ('e', (Bad, OverflowError), None)
      return ('e', OverflowError, s[1])
    return ('e', OverflowError, repr(make(tok)))
  if T == 'float32': return ('v', f32(x))
  if T == 'bytes' and type(x) is not bytes: return ('m',) if x is None else ('e', TypeError, None)
  if T == 'text':
    try: x.encode()
    except UnicodeEncodeError: return ('e', UnicodeEncodeError, None)
  return r
def compare(want, got):
  if want[0] != got[0]: raise No('wrong-outcome', 'got', got, 'want', want)
  if want[0] == 'e':
    ok = isinstance(got[1], want[1])
    if ok and want[2] is not None: ok = got[1].args == (want[2],) if want[1] is Bad else want[2] in str(got[1])
    if not ok: raise No('wrong-error', 'got', repr(got[1]), 'want', want)
  elif want[0] == 'v' and repr(want[1]) != repr(got[1]): raise No('wrong-value', 'got', got[1], 'want', want[1])
def convert_all(T, toks, l):
  r = []
  for t in toks:
    x = convert(T, t, l)
    if x[0] == 'e': return x
    r.append(None if x[0] == 'm' else x[1])
  return ('v', r)
def done(l):
  if l.i < len(l.l): raise No('converted-once-too-often', l.l[l.i:])
def call(f, *args):
  """Calls, writing down conversions."""
  before = getattr(tls, 'log', None)
  entries = tls.log = []
  a = seq()
  try: r = ('v', f(*args))
  except Exception as e: r = ('e', e.with_traceback(None))
  b = seq()
  if tls.log is not entries: fail('harness')
  tls.log = before
  return r, entries, a, b

# A list several threads change.
class Shared:
  def __init__(self, T, toks):
    self.T = T; self.l = make_all(toks); self.hist = [(0, toks)]
def change(s):
  fresh = [(t, make(t)) for t in [token(s.T) for _ in range(choose(4))]]
  change_now(s, fresh, choose(8), choose(1000))
  _sim.probe('changed')
def change_now(s, fresh, how, at):
  toks = list(s.hist[-1][1])
  l = s.l
  if len(l) != len(toks): fail('harness-history')
  i = at % (len(l) + 1)
  new = [x for _, x in fresh]
  fresh = [t for t, _ in fresh]
  def record(toks): s.hist.append((seq(), toks))
  if how < 2: record(fresh); l[:] = new
  elif how == 2: record([]); l.clear()
  elif how == 3: record(toks[:i]); del l[i:]
  elif how == 4: record(toks[i:]); del l[:i]
  elif how == 5: record(toks[:i] + fresh + toks[i:]); l[i:i] = new
  elif how == 6 and toks and fresh: i %= len(toks); record(toks[:i] + fresh[:1] + toks[i + 1:]); l[i] = new[0]
  else: record(toks[::-1]); l.reverse()
def versions(s, a, b):
  for i, (t, toks) in enumerate(s.hist):
    if t < b and (i + 1 == len(s.hist) or s.hist[i + 1][0] > a): yield toks

def source(w, T):
  """An iterable, what it holds, and whether it is going to fail."""
  n = choose(9)
  if n < 4:
    s = w.shared[choose(len(w.shared))]
    if choose(2): T = s.T
    return T, s.l, s, None
  toks = tokens(T)
  if n == 4: return T, tuple(make_all(toks)), toks, None
  if n == 5: return T, make_all(toks), toks, None
  k = next(W.ids)
  broken = choose(len(toks) + 1) if choose(4) == 0 else None
  def gen():
    for i, t in enumerate(toks):
      if i == broken: raise Bad(k)
      behave('iterator')
      yield make(t)
    if broken == len(toks): raise Bad(k)
  watch_fn(gen)
  err = None if broken is None else ('e', Bad, k)
  if n == 6: return T, gen(), toks, err
  if n == 7:
    class L(list):
      def __iter__(self): return gen()
    return T, L((1, 2, 3)), toks, err
  class I:
    def __iter__(self):
      if err: behave('iterator'); raise TypeError('mine')
      return gen()
  if choose(3) == 0: return T, (5, None, UN(0), T)[choose(3)], toks, ('e', TypeError, 'expected a sequence of values')
  return T, I(), toks, err and ('e', TypeError, 'expected a sequence of values')
def from_values(w):
  T = TYPES[choose(len(TYPES))]
  T, src, held, err = source(w, T)
  f = getattr(bx, 'dense_array_%s_from_values' % T)
  (r, entries, a, b) = call(f, src)
  v = None
  if r[0] == 'v':
    v = r[1]
    check(bx.type(v) == 'DENSE_ARRAY_' + T.upper(), 'wrong-type', bx.type(v))
    r = ('v', bx.get_array_py_value(v))
  del src
  why = None
  cands = list(versions(held, a, b)) if isinstance(held, Shared) else [held]
  for toks in cands:
    l = Log(entries, a, b)
    try:
      if err: compare(err, r); break
      compare(convert_all(T, toks, l), r)
      done(l)
      break
    except No as x: why = why or x.args
  else: fail(*why, 'of', T, cands, entries)
  if len(cands) > 1: _sim.probe('changed-meanwhile')
  _sim.probe('boxed' if v is not None else 'refused')
  if v is None: return
  same = f(tuple(r[1]))
  check(bx.fp(same) == bx.fp(v), 'same-content-differs', T, r[1])
  keep_array(w, (T, r[1], v))
def keep_array(w, x):
  w.arrays.append(x)
  if len(w.arrays) > 4: w.arrays.pop(0)
def verdict(want, got, entries, l, *where):
  try: compare(want, got); done(l)
  except No as x: fail(*x.args, *where, entries)
def one(w):
  T = TYPES[choose(len(TYPES))]
  tok = token(T)
  x = make(tok)
  n = choose(3)
  if n == 0:
    f = FAMILY[T]
    r, entries, a, b = call(getattr(bx, 'py_' + f), x)
    l = Log(entries, a, b)
    want = to_python(f, tok, l)
    if want[0] == 'm': want = ('v', None)
    verdict(want, r, entries, l, 'py_' + f, tok)
    _sim.probe('unboxed')
    return
  if n == 1 and T == 'unit': return
  name = T if n == 1 else 'optional_' + T
  r, entries, a, b = call(getattr(bx, name), x)
  l = Log(entries, a, b)
  want = convert(T, tok, l) if not (n == 1 and tok == ('py', 'None')) else ('e', TypeError, None)
  if want[0] == 'm': want = ('v', None) if n == 2 else ('e', Missing, None)
  if r[0] == 'v':
    check(bx.type(r[1]) == name.upper(), 'wrong-type', bx.type(r[1]))
    r = ('v', getattr(bx, 'py_' + FAMILY[T])(r[1]))
  verdict(want, r, entries, l, name, tok)
  _sim.probe('scalar')
def item(w):
  if not w.arrays: return
  T, values, v = w.arrays[choose(len(w.arrays))]
  if choose(3) == 0: v = bx.sparse(v); check(bx.type(v) == 'ARRAY_' + T.upper(), 'wrong-type')
  if choose(3) == 0:
    got = bx.get_array_py_value(v)
    check(repr(got) == repr(values), 'wrong-values', got, values)
    _sim.probe('listed')
    return
  tok = token('int64') if choose(3) == 0 else ('py', str(choose(2 * len(values) + 2) - len(values) - 1))
  r, entries, a, b = call(bx.get_array_item, v, make(tok))
  l = Log(entries, a, b)
  want = convert('int64', tok, l) if tok != ('py', 'None') else ('e', TypeError, None)
  if want[0] == 'm': want = ('e', Missing, None)
  elif want[0] == 'v':
    i = want[1]
    want = ('v', values[i]) if -len(values) <= i < len(values) else ('e', IndexError, None)
  if r[0] == 'v':
    check(bx.type(r[1]) == 'OPTIONAL_' + T.upper(), 'wrong-type', bx.type(r[1]))
    r = ('v', getattr(bx, 'py_' + FAMILY[T])(r[1]))
  verdict(want, r, entries, l, 'item', tok, values)
  _sim.probe('item')
def not_array(w):
  x = (5, [1], bx.int32(1), None, clib.make_tuple())[choose(5)]
  r, entries, a, b = call(*((bx.get_array_py_value, x) if choose(2) else (bx.get_array_item, x, 0)))
  verdict(('e', TypeError, 'expected an array'), r, entries, Log(entries, a, b), 'not-array')

def behave(where):
  if not W.active: return
  w = W.world
  if w.calm or getattr(tls, 'depth', 0) >= 2: return
  n = choose(10)
  if n < 2: return
  if n < 5:
    for _ in range(1 + choose(3)): _sim.yield_()
    return
  if next(w.budget) > 40: return
  tls.depth = getattr(tls, 'depth', 0) + 1
  before = getattr(tls, 'log', None)
  tls.log = None
  try:
    _sim.probe('reentered-from-' + where)
    if n < 7: change(w.shared[choose(len(w.shared))])
    elif n == 7: redefine(w)
    else: (from_values, one, item)[choose(3)](w)
  finally:
    tls.depth -= 1
    tls.log = before
def worker(w, ops):
  for op in ops:
    if op < 6: from_values(w)
    elif op < 8: one(w)
    elif op < 10: item(w)
    elif op < 13: change(w.shared[choose(len(w.shared))])
    elif op == 13: (not_array, redefine)[choose(2)](w)
    else: _sim.yield_()

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (worker, behave, change, redefine, UM.__buffer__, UM.__release_buffer__, from_values, one, item, call, user_call): watch_fn(f)

def scenario():
  w = World()
  _sim.max_steps(60000000)
  _sim.preempt([0, 10, 40, 200][choose(4)])
  w.calm = choose(5) == 0
  w.budget = itertools.count()
  w.arrays = []
  W.world = w
  w.shared = []
  w.methods = []
  redefine_now(w, None, None)
  w.methods[0] = (0, None)
  for _ in range(1 + choose(2)):
    T = TYPES[choose(len(TYPES))]
    w.shared.append(Shared(T, tokens(T)))
  W.active = True
  threads = []
  for t in range(choose(4)):
    ops = [choose(15) for _ in range(1 + choose(7))]
    threads.append(threading.Thread(target=worker, args=(w, ops)))
  for t in threads: t.start()
  worker(w, [choose(15) for _ in range(choose(10))])
  for t in threads: t.join()
  del threads
  W.active = False
  # Nothing keeps an element, and arrays outlive them.
  for s in w.shared: s.l.clear()
  tls.log = None
  for T, values, v in w.arrays: check(repr(bx.get_array_py_value(v)) == repr(values), 'array-changed', T, values)
  gc.collect()
  made, died = next(W.made), next(W.died)
  check(made == died, 'kept-alive', made - died)
  W.world = None
)PY";
extern "C" void sim_scenario() { pyhost::run(); }
extern "C" const char* const sim_harness_name = "pyboxing";
extern "C" void sim_init() { pyhost::boot_eval(kScript, more); }
