// C27: text representations of expressions and labelled values.
//
// Real: operator_repr_functions.cc, expr_debug_string.cc, labeled_qtype.cc,
// derived_qtype.cc, tuple_qtype.cc, py_expr.cc, py_qvalue.cc, and CPython.
// The harness brings the printers and (in place of pybind11) what turns a
// Python function into one.
#include "pyeval.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/expr/annotation_expr_operators.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr_debug_string.h"
#include "arolla/expr/operator_repr_functions.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/util/text.h"

namespace {
using namespace arolla::python;
using namespace arolla::expr;
using namespace arolla;

ExprOperatorSignature Sig(int n) {
  return n == 1 ? ExprOperatorSignature{{"x"}} : ExprOperatorSignature{{"x"}, {"y"}};
}
struct Op : public ExprOperatorWithFixedSignature {
  Op(const char* name, int n, const char* key)
      : ExprOperatorWithFixedSignature(name, Sig(n), "", FingerprintHasher("repr").Combine(absl::string_view(name), n, absl::string_view(key)).Finish()), key(key) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes>) const final { return ExprAttributes(GetQType<int64_t>()); }
  absl::string_view py_qvalue_specialization_key() const final { return key; }
  std::string key;
};

// A Python function held by C++, as pybind11 holds one.
struct PyFn {
  explicit PyFn(PyObject* f) : f(f) { Py_INCREF(f); }
  PyFn(const PyFn& o) : f(o.f) {
    AcquirePyGIL gil;
    Py_INCREF(f);
  }
  PyFn& operator=(const PyFn&) = delete;
  ~PyFn() {
    if (!f) sim_fail("printer-freed-twice", "-");
    AcquirePyGIL gil;
    PyObject* old = f;
    f = nullptr;
    Py_DECREF(old);
  }
  // Gives nothing when the function returned None or raised.
  std::optional<ReprToken> call(PyObject* args) const {
    if (!f) sim_fail("printer-used-after-it-was-freed", "-");
    auto r = PyObjectPtr::Own(args ? PyObject_CallObject(f, args) : nullptr);
    Py_XDECREF(args);
    if (!f) sim_fail("printer-freed-while-in-use", "-");
    if (r == nullptr) {
      PyErr_Clear();
      return std::nullopt;
    }
    if (r.get() == Py_None) return std::nullopt;
    ReprToken t;
    const char* s; int a, b;
    if (!PyArg_ParseTuple(r.get(), "sii", &s, &a, &b)) pyhost::die("printer");
    t.str = s;
    t.precedence.left = a; t.precedence.right = b;
    return t;
  }
  PyObject* f;
};
PyObject* token(const ReprToken& t) { return Py_BuildValue("(Nii)", PyUnicode_FromStringAndSize(t.str.data(), t.str.size()), (int)t.precedence.left, (int)t.precedence.right); }
OperatorReprFn op_printer(PyObject* f) {
  if (f == Py_None) return nullptr;
  return [fn = PyFn(f)](const ExprNodePtr& node, const absl::flat_hash_map<Fingerprint, ReprToken>& tokens) {
    AcquirePyGIL gil;
    PyObject* deps = PyTuple_New(node->node_deps().size());
    for (size_t i = 0; i < node->node_deps().size(); ++i) {
      auto it = tokens.find(node->node_deps()[i]->fingerprint());
      if (it == tokens.end()) sim_fail("dependency-without-text", "-");
      PyTuple_SET_ITEM(deps, i, token(it->second));
    }
    return fn.call(Py_BuildValue("(sN)", node->fingerprint().AsString().c_str(), deps));
  };
}
QTypePtr as_qtype(PyObject* o) { return UnsafeUnwrapPyQValue(o).UnsafeAs<QTypePtr>(); }

PyObject* p_by_name(PyObject*, PyObject* args) {
  const char* n; PyObject* f;
  if (!PyArg_ParseTuple(args, "sO", &n, &f)) return nullptr;
  RegisterOpReprFnByByRegistrationName(n, op_printer(f));
  Py_RETURN_NONE;
}
PyObject* p_by_key(PyObject*, PyObject* args) {
  const char* n; PyObject* f;
  if (!PyArg_ParseTuple(args, "sO", &n, &f)) return nullptr;
  RegisterOpReprFnByQValueSpecializationKey(n, op_printer(f));
  Py_RETURN_NONE;
}
PyObject* p_by_label(PyObject*, PyObject* args) {
  const char* n; PyObject* f; int override;
  if (!PyArg_ParseTuple(args, "sOp", &n, &f, &override)) return nullptr;
  LabeledQTypeReprFn fn;
  if (f != Py_None) {
    fn = [fn = PyFn(f)](TypedRef value) {
      auto v = TypedValue(value);
      AcquirePyGIL gil;
      return fn.call(Py_BuildValue("(s)", v.GetFingerprint().AsString().c_str()));
    };
  }
  auto st = RegisterLabeledQTypeReprFn(n, std::move(fn), override);
  if (!st.ok()) return SetPyErrFromStatus(st);
  Py_RETURN_NONE;
}
PyObject* p_make_op(PyObject*, PyObject* args) {
  const char *n, *k; int a;
  if (!PyArg_ParseTuple(args, "sis", &n, &a, &k)) return nullptr;
  return WrapAsPyQValue(TypedValue::FromValue(ExprOperatorPtr(std::make_shared<Op>(n, a, k))));
}
PyObject* p_fp(PyObject*, PyObject* a) {
  return PyUnicode_FromString((IsPyExprInstance(a) ? UnsafeUnwrapPyExpr(a)->fingerprint() : UnsafeUnwrapPyQValue(a).GetFingerprint()).AsString().c_str());
}
PyObject* p_label(PyObject*, PyObject* args) {
  PyObject* v; const char* l;
  if (!PyArg_ParseTuple(args, "Os", &v, &l)) return nullptr;
  auto& x = UnsafeUnwrapPyQValue(v);
  return WrapAsPyQValue(TypedValue(UnsafeDowncastDerivedQValue(GetLabeledQType(x.GetType(), l), x.AsRef())));
}
PyObject* p_text(PyObject*, PyObject* a) {
  const char* s = PyUnicode_AsUTF8(a);
  if (!s) return nullptr;
  return WrapAsPyQValue(TypedValue::FromValue(Text(s)));
}
PyObject* p_token(PyObject*, PyObject* a) {
  TypedValue v = UnsafeUnwrapPyQValue(a);
  ReprToken t;
  {
    ReleasePyGIL no_gil;
    t = v.GenReprToken();
  }
  return token(t);
}
PyObject* p_debug(PyObject*, PyObject* a) {
  ExprNodePtr e = UnsafeUnwrapPyExpr(a);
  std::string s = ToDebugString(e);  // with the GIL
  return PyUnicode_FromStringAndSize(s.data(), s.size());
}
void more() {
  for (auto [n, a] : {std::pair{"math.add", 2}, {"math.multiply", 2}, {"math.pow", 2}, {"core.less", 2}, {"math.neg", 1}, {"repr.op0", 1}, {"repr.op1", 2}, {"repr.op2", 2}})
    if (!RegisterOperator(n, std::make_shared<Op>(n, a, "")).ok()) pyhost::die(n);
  if (!ExprOperatorRegistry::GetInstance()->LookupOperatorOrNull("annotation.name") && !RegisterOperator("annotation.name", NameAnnotation::Make()).ok()) pyhost::die("name");
  static PyMethodDef defs[] = {
      {"by_name", p_by_name, METH_VARARGS, nullptr}, {"by_key", p_by_key, METH_VARARGS, nullptr},
      {"by_label", p_by_label, METH_VARARGS, nullptr}, {"make_op", p_make_op, METH_VARARGS, nullptr},
      {"fp", p_fp, METH_O, nullptr}, {"label", p_label, METH_VARARGS, nullptr}, {"text", p_text, METH_O, nullptr},
      {"token", p_token, METH_O, nullptr}, {"debug", p_debug, METH_O, nullptr}, {nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_repr", nullptr, -1, defs};
  pyhost::native_module("_repr", [] { return PyModule_Create(&def); });
}
}  // namespace

static const char kScript[] = R"PY(
import itertools
clib = _abc_clib
native = sys.modules['_repr']
choose, seq = _sim.choose, _sim.seq
box, lit, leaf = clib.int64, clib.literal, clib.leaf
tls = threading.local()
HIGH = (-1, -1)
class World: pass
W = World()
W.made = itertools.count(); W.died = itertools.count(); W.active = False; W.version = itertools.count(1); W.runs = itertools.count(1)

# One key of a registry: its writes [from, seen or complete, version].
class Reg:
  def __init__(self): self.writes = [[0, 0, None]]
  def begin(self, v):
    w = [seq(), 1 << 62, v]
    self.writes.append(w)
    return w
  def end(self, w): w[1] = min(w[1], seq())
  def refused(self, w): self.writes.remove(w)
  def possible(self, v, a, b, but=None):
    for w in self.writes:
      if w is but or w[2] != v or w[0] > b: continue
      if any(x is not but and x[0] > w[1] and x[1] < a for x in self.writes): continue
      yield w
  def saw(self, v, a, b):
    ws = list(self.possible(v, a, b))
    if not ws: return False
    if v is not None:
      for w in ws: w[1] = min(w[1], b)
    return True

class Bad(Exception): pass
class Token:
  def __init__(self, v): self.v = v; self.alive = True; next(W.made)
  def __del__(self):
    self.alive = False
    next(W.died)
    behave('death')
def log(e):
  stack = getattr(tls, 'logs', None)
  if not stack: fail('printer-called-outside')
  stack[-1].append(e)
def make_printer(reg):
  t = Token(next(W.version))
  v = t.v
  kind = choose(6)
  prec = ((-1, -1), (1, 1), (3, 2), (5, 4), (0, -1), (12, 12))[choose(6)]
  def printer(subject, deps=None, t=t):
    check(t.alive, 'used-after-death')
    n = seq()
    r = ('v%d' % v + ('' if deps is None else '[' + '|'.join(d[0] for d in deps) + ']'),) + prec if kind > 1 else None
    log((reg, subject, v, n, deps, r))
    behave('printer')
    check(t.alive, 'died-in-use')
    if kind == 0: raise Bad(v)
    return r
  return v, printer

def set_op(w):
  kind, name = w.keys[choose(len(w.keys))]
  f = native.by_name if kind == 'name' else native.by_key
  reg = w.regs[kind, name]
  v, p = (None, None) if choose(4) == 0 else make_printer(reg)
  x = reg.begin(v)
  f(name, p)
  reg.end(x)
def set_label(w):
  name = w.labels[choose(len(w.labels))]
  reg = w.regs['label', name]
  v, p = (None, None) if choose(4) == 0 else make_printer(reg)
  override = v is None or choose(3) > 0
  a = seq()
  x = reg.begin(v)
  try: native.by_label(name, p, override); good = True
  except ValueError as e:
    good = False
    check(str(e).find("already has a registered repr function") >= 0 and str(e).find(name) >= 0, 'wrong-error', e)
  b = seq()
  if good:
    reg.end(x)
    # It must have been free at some moment.
    if not override: check(any(reg.possible(None, a, b, x)), 'silently-replaced', name); _sim.probe('taken')
  else:
    check(not override, 'override-refused')
    reg.refused(x)
    check(any(True for o in reg.writes if o[2] is not None and any(reg.possible(o[2], a, b, x))), 'refused-though-free', name)
    _sim.probe('refused')

# Values and expressions, and the text they must have.
class Val: pass
def make_value(w, depth=0):
  v = Val()
  n = choose(4 if depth < 3 else 1)
  if n == 0:
    v.kind = 'int'; v.x = box(choose(3)); v.base = PLAIN[native.fp(v.x)]
  elif n == 1:
    v.kind = 'tuple'; v.items = [make_value(w, depth + 1) for _ in range(choose(3))]
    v.x = clib.make_tuple(*[i.x for i in v.items])
  else:
    # A label replaces another one.
    i = make_value(w, depth + 1)
    while i.kind == 'label': i = i.item
    v.kind = 'label'; v.item = i; v.label = w.labels[choose(len(w.labels))]
    v.x = native.label(i.x, v.label)
  v.fp = native.fp(v.x)
  return v
class No(Exception): pass
class Replay:
  """Follows the calls a thread logged while it made a text."""
  def __init__(self, w, log, a, b, skip):
    self.w = w; self.log = log; self.a = a; self.b = b; self.i = 0; self.used = []; self.skip = skip; self.choices = 0
  def ask(self, key, subject, deps=None):
    reg = self.w.regs[key]
    after = self.log[self.i - 1][3] if self.i else self.a
    before = self.log[self.i][3] if self.i < len(self.log) else self.b
    none = any(reg.possible(None, after, before))
    if self.i < len(self.log) and self.log[self.i][0] is reg and self.log[self.i][1] == subject:
      # The same subject may be asked for again: which time was it?
      self.choices += none
      if not none or self.choices not in self.skip:
        _, _, v, n, seen, r = self.log[self.i]
        self.i += 1
        if not any(reg.possible(v, after, n)): raise No('stale-printer', key, v, reg.writes, after, n)
        if seen != deps: raise No('wrong-dependency-texts', key, seen, deps)
        self.used.append((reg, v, after, n))
        return r
    if not none: raise No('printer-ignored', key, reg.writes, after, before)
    return None
def explain(w, log, a, b, got, f):
  """Some way to follow the calls gives the text."""
  skips, tried, why = [frozenset()], 0, None
  while skips and tried < 200:
    skip = skips.pop(0)
    tried += 1
    r = Replay(w, log, a, b, skip)
    try:
      want = f(r)
      if r.i < len(log): raise No('printer-called-once-too-often', [x[2] for x in log])
      if want != got: raise No('wrong-text', 'got', got, 'want', want, 'calls', [(x[2], x[5]) for x in log])
    except No as x:
      why = why or x.args
      skips.extend(skip | {c} for c in range(max(skip, default=0) + 1, r.choices + 1))
      continue
    for reg, v, p, q in r.used: reg.saw(v, p, q)
    for x in log: _sim.probe('printed' if x[5] else 'printer-gave-nothing')
    return
  if not skips: fail(*why)
def value_token(v, r):
  if v.kind == 'int': return v.base
  if v.kind == 'label':
    t = r.ask(('label', v.label), v.fp)
    return t or ('LABEL[%s]{%s}' % (v.label, value_token(v.item, r)[0]),) + HIGH
  return ('(' + ', '.join(value_token(i, r)[0] for i in v.items) + ')',) + HIGH
class Node: pass
INFIX = {'math.add': (' + ', 5, 4), 'math.multiply': (' * ', 3, 2), 'math.pow': (' ** ', 1, 2), 'core.less': (' < ', 12, 12)}
def node(kind, e, deps=(), **kw):
  n = Node(); n.kind = kind; n.e = e; n.deps = list(deps); n.fp = native.fp(e); n.__dict__.update(kw)
  return n
def safe(name): return name and all(p.isidentifier() for p in name.split('.')) and not (len(name) > 1 and name[0] == '_' and name[1:].isdigit())
def post_order(root):
  r, seen = [], set()
  def go(n):
    if n.fp in seen: return
    seen.add(n.fp)
    for d in n.deps: go(d)
    r.append(n)
  go(root)
  return r
def paren(t, bad): return '(' + t[0] + ')' if bad else t[0]
def format_node(n, tokens, r, verbose):
  if n.kind == 'leaf': return (n.text,) + HIGH
  if n.kind == 'lit': return value_token(n.value, r) if n.value else (n.text,) + HIGH
  deps = tuple(tokens[d.fp] for d in n.deps)
  plain = (('M.' if n.registered else '') + n.name + '(' + ', '.join(d[0] for d in deps) + ')',) + HIGH
  if verbose: return (plain[0] + (':Attr(qtype=INT64)' if n.typed else ''),) + HIGH
  if n.name in INFIX:
    s, l, x = INFIX[n.name]
    a, b = deps
    return (paren(a, not a[2] < l) + s + paren(b, not b[1] < x), l, x)
  if n.name == 'math.neg': return ('-' + paren(deps[0], not deps[0][1] < 1), 1, 1)
  return r.ask(('name', n.name) if n.registered else ('key', n.key), n.fp, deps) or plain
def expect(root, r, verbose):
  order = post_order(root)
  parents = {n.fp: 0 for n in order}
  for n in order:
    for d in n.deps: parents[d.fp] += 1
  depth, chosen = {}, []
  for n in order:
    k = 1
    for d in n.deps: k = max(k, 1 + depth[d.fp])
    if n.annotation is not None or parents[n.fp] > 1 and k >= 3: chosen.append(n); k = 1
    depth[n.fp] = k
  counts = {}
  for n in chosen:
    if safe(n.annotation): counts[n.annotation] = counts.get(n.annotation, 0) + 1
  names, used, anonymous = {}, {}, 0
  for n in chosen:
    if not safe(n.annotation):
      anonymous += 1; names[n.fp] = '_%d' % anonymous
    elif counts[n.annotation] == 1: names[n.fp] = n.annotation
    else:
      used[n.annotation] = used.get(n.annotation, 0) + 1
      names[n.fp] = '%s._%d' % (n.annotation, used[n.annotation])
  tokens, lines = {}, []
  for n in order:
    if n.fp not in names: tokens[n.fp] = format_node(n, tokens, r, verbose); continue
    s = names[n.fp]
    lines.append(s + ' = ' + (tokens[n.deps[0].fp] if safe(n.annotation) else format_node(n, tokens, r, verbose))[0])
    tokens[n.fp] = (s,) + HIGH
  if chosen: _sim.probe('statement')
  return '\n'.join(lines + [tokens[root.fp][0]])
def make_expr(w):
  nodes = [node('leaf', leaf('x'), text='L.x', typed=False, annotation=None), node('leaf', leaf('y'), text='L.y', typed=False, annotation=None)]
  for _ in range(1 + choose(9)):
    n = choose(13)
    pick = lambda: nodes[-1 - (choose(3) if choose(2) else choose(len(nodes))) % len(nodes)]
    if n < 2:
      v = make_value(w)
      nodes.append(node('lit', lit(v.x), value=v, typed=True, annotation=None))
    elif n == 2:
      d = pick()
      if d.kind == 'lit': continue
      s = ('a', 'b', 'a.b', '_7', '', 'two words')[choose(6)]
      t = native.text(s)
      l = node('lit', lit(t), value=None, text=TEXTS[s], typed=True, annotation=None)
      nodes.append(node('op', clib.make_operator_node('annotation.name', (d.e, l.e)), (d, l), name='annotation.name', registered=True, typed=d.typed, annotation=s))
    else:
      name, arity, key = (('math.add', 2, 0), ('math.multiply', 2, 0), ('math.pow', 2, 0), ('core.less', 2, 0), ('math.neg', 1, 0), ('repr.op0', 1, 0), ('repr.op1', 2, 0), ('repr.op1', 2, 0), ('repr.op2', 2, 0), ('raw0', 2, 'fam.0'), ('raw1', 1, 'fam.1'))[choose(11)]
      deps = [pick() for _ in range(arity)]
      o = native.make_op(name, arity, key) if key else name
      nodes.append(node('op', clib.make_operator_node(o, tuple(d.e for d in deps)), deps, name=name, registered=not key, key=key, typed=True, annotation=None))
  return nodes[-1]
def logged(f, *args):
  if not hasattr(tls, 'logs'): tls.logs = []
  entries = []
  tls.logs.append(entries)
  a = seq()
  r = f(*args)
  b = seq()
  if tls.logs.pop() is not entries: fail('harness')
  return r, entries, a, b
def show(w, i=None):
  n = choose(10)
  if n < 3 or n == 3 and not w.values:
    v = w.values[choose(len(w.values))]
    if n == 0: r, l, a, b = logged(native.token, v.x)
    else: r, l, a, b = logged(repr, v.x)
    explain(w, l, a, b, r, lambda replay: value_token(v, replay) if n == 0 else value_token(v, replay)[0])
    _sim.probe('value')
  else:
    root = w.exprs[choose(len(w.exprs))]
    f = (repr, repr, str, native.debug, lambda e: '%s' % e, lambda e: format(e, ''), lambda e: format(e, 'verbose'))[n - 3]
    r, l, a, b = logged(f, root.e)
    explain(w, l, a, b, r, lambda replay: expect(root, replay, n == 9))
    _sim.probe('expression')
  if len(l) > 1: _sim.probe('several-printers')

def behave(where):
  if not W.active: return
  w = W.world
  if w.calm or getattr(tls, 'depth', 0) >= 2: return
  n = choose(10)
  if n < 3: return
  if n < 6:
    for _ in range(1 + choose(3)): _sim.yield_()
    return
  if next(w.budget) > 24: return
  tls.depth = getattr(tls, 'depth', 0) + 1
  logs = getattr(tls, 'logs', [])
  tls.logs = []
  try:
    _sim.probe('reentered-from-' + where)
    if n == 6: set_op(w)
    elif n == 7: set_label(w)
    else: show(w)
  finally:
    tls.depth -= 1
    tls.logs = logs
def many(w):
  """Unrelated printers, enough to make the tables move."""
  for _ in range(1 + choose(10)):
    n = 'extra%d' % next(w.extra)
    v, p = make_printer(None)
    native.by_name(n, p)
    w.extras.append(n)
def worker(w, ops):
  for op in ops:
    if op < 6: show(w)
    elif op < 10: set_op(w)
    elif op < 13: set_label(w)
    elif op == 13: many(w)
    elif op == 14: _sim.yield_()

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (worker, behave, many, set_op, set_label, show, logged): watch_fn(f)
PLAIN = {native.fp(box(i)): (repr(box(i)),) + native.token(box(i))[1:] for i in range(3)}
TEXTS = {s: "'%s'" % s for s in ('a', 'b', 'a.b', '_7', '', 'two words')}

def scenario():
  w = World()
  _sim.max_steps(60000000)
  _sim.preempt([0, 10, 40, 200][choose(4)])
  w.calm = choose(4) == 0
  w.budget = itertools.count(); w.extra = itertools.count(); w.extras = []
  run = next(W.runs)
  w.labels = ['r%d.%s' % (run, s) for s in 'pq']
  w.keys = [('name', 'repr.op0'), ('name', 'repr.op1'), ('name', 'repr.op2'), ('name', 'annotation.name'), ('key', 'fam.0'), ('key', 'fam.1')]
  w.regs = {k: Reg() for k in w.keys + [('label', l) for l in w.labels]}
  W.world = w
  w.values = [make_value(w) for _ in range(2 + choose(3))]
  w.exprs = [make_expr(w) for _ in range(1 + choose(3))]
  W.active = True
  for _ in range(choose(8)): (set_op, set_op, set_label)[choose(3)](w)
  threads = []
  for t in range(choose(4)):
    ops = [choose(15) for _ in range(1 + choose(7))]
    threads.append(threading.Thread(target=worker, args=(w, ops)))
  for t in threads: t.start()
  worker(w, [choose(15) for _ in range(choose(10))])
  for t in threads: t.join()
  del threads
  W.active = False
  for _ in range(4): show(w)
  # Nothing but the registry keeps a printer.
  for kind, k in w.keys:
    x = w.regs[kind, k].begin(None)
    (native.by_name if kind == 'name' else native.by_key)(k, None)
    w.regs[kind, k].end(x)
  for l in w.labels:
    x = w.regs['label', l].begin(None)
    native.by_label(l, None, True)
    w.regs['label', l].end(x)
  for n in w.extras: native.by_name(n, None)
  for _ in range(2): show(w)
  gc.collect()
  made, died = next(W.made), next(W.died)
  check(made == died, 'kept-alive', made - died, 'printers outlive their registration')
  W.world = None
)PY";
extern "C" void sim_scenario() { pyhost::run(); }
extern "C" const char* const sim_harness_name = "pyrepr";
extern "C" void sim_init() { pyhost::boot_eval(kScript, more); }
