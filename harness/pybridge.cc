// C18: Python callbacks on cancellation, run by a bridge's worker thread.
//
// Real: python_callback_bridge.cc, _tasks/clib.cc, callbacks.py,
// py_cancellation.cc, util/cancellation and CPython.  Stand-in: pybind11.
#include "pyarolla.h"

extern "C" const char* const sim_harness_name = "pybridge";

static const char kScript[] = R"PY(
load_tasks()
import warnings, atexit, itertools
threading._dangling.clear()
watch_module(threading)
choose = _sim.choose
seq = _sim.seq
abc = arolla.abc
clib = sys.modules['arolla.experimental._tasks.clib']

class Ctx:
  def __init__(self, i):
    self.i = i; self.ctx = abc.CancellationContext(); self.begin = None; self.end = None
class Bridge:
  def __init__(self, i, b): self.i = i; self.b = b; self.close_begin = None; self.close_end = None
class World: pass
class Boom(Exception): pass
class BaseBoom(BaseException): pass
class Token: __slots__ = ('__weakref__',)

class Sub:
  """One subscription and what is known about it."""
  def __init__(self, i):
    self.i = i; self.sub = None; self.begin = None; self.end = None
    self.un_begin = None; self.un_end = None; self.un_active = 0
    self.runs = []; self.finished = 0

class Cb:
  """The Python callback; watched so that nothing keeps it alive for ever."""
  __slots__ = ('w', 's', 'act', '__weakref__')
  def __init__(self, w, s, act): self.w = w; self.s = s; self.act = act
  def __call__(self): return run_cb(self.w, self.s, self.act)

def run_cb(w, s, act):
  me = threading.get_ident()
  s.runs.append(seq())
  check(len(s.runs) <= s.may, 'callback-twice', 'subscription', s.i)
  check(s.c.begin is not None, 'called-uncancelled', 'subscription', s.i)
  check(me not in w.clients, 'called-on-wrong-thread', 'subscription', s.i)
  b = s.bridge
  check(b.close_end is None, 'called-after-close', 'subscription', s.i)
  ident = w.worker.setdefault(b.i, me)
  check(ident == me, 'called-on-wrong-thread', 'subscription', s.i)
  check(w.inside.setdefault(b.i, s) is s, 'callbacks-overlap')
  try:
    if act == 1: _sim.probe('callback-fails'); raise Boom()
    if act == 2: _sim.probe('callback-fails'); raise BaseBoom()
    if act == 3: time.sleep(0.3)
    if act == 4: cancel(w.ctxs[choose(len(w.ctxs))]); _sim.probe('callback-cancels')
    if act == 5: unsubscribe(w.subs[choose(len(w.subs))]); _sim.probe('callback-unsubscribes')
    if act == 6: subscribe(w, 7); _sim.probe('callback-subscribes')
    t = Token()
    w.tokens.append(weakref.ref(t))
    return t
  finally:
    w.inside.pop(b.i)
    s.finished += 1

def stamp(o, name):  # the first time; atomic, as it is not watched
  if getattr(o, name) is None: setattr(o, name, seq())
def cancel(c):
  stamp(c, 'begin')
  c.ctx.cancel('stop')
  stamp(c, 'end')

def subscribe(w, act, style=0, k=None, bridge=None):
  s = Sub(next(w.ids))
  s.c = w.ctxs[choose(len(w.ctxs)) if k is None else k]
  s.bridge = w.bridges[0] if bridge is None else w.bridges[bridge]
  s.act = act
  s.may = 1
  twice = choose(4) == 1       # the same callback, subscribed twice
  if twice: s.may = 2; _sim.probe('subscribed-twice')
  s.ok = False
  w.subs.append(s)
  cb = Cb(w, s, act)
  s.ref = weakref.ref(cb)
  s.begin = seq()
  open0 = s.bridge.close_begin is None
  try:
    if s.bridge.i == 0:
      # The public function, with the context given or current.
      if style == 0:
        sub = [tasks.subscribe_to_cancellation(cb, cancellation_context=s.c.ctx)]
        if twice: sub.append(tasks.subscribe_to_cancellation(cb, cancellation_context=s.c.ctx))
        s.sub = sub
      else:
        s.may = 1
        try: s.sub = [abc.run_in_cancellation_context(s.c.ctx, tasks.subscribe_to_cancellation, cb)]
        except ValueError:
          check(s.c.begin is not None, 'cancelled-unasked')
          s.c = None
          return s
    else:
      sub = [clib.subscribe_to_cancellation(s.bridge.b, cb, s.c.ctx)]
      if twice: sub.append(clib.subscribe_to_cancellation(s.bridge.b, cb, s.c.ctx))
      s.sub = sub
  except RuntimeError as e: fail('subscribe-failed', e)
  s.end = seq()
  s.ok = True
  return s

def un_begin(s):
  if s.un_begin is None: s.un_begin = seq()
  s.un_active += 1
def un_end(s):
  s.un_active -= 1
  # (Two threads may be ending it; it has ended when both have.)
  if s.un_end is None and not s.un_active: s.un_end = seq()
def unsubscribe(s):
  sub = s.sub
  if sub is None: return
  un_begin(s)
  for x in sub:
    if choose(2): x.unsubscribe()
    else: x.__exit__(None, None, None)
  sub = x = None
  un_end(s)

def close(b):
  stamp(b, 'close_begin')
  b.b.close()
  stamp(b, 'close_end')

def client(w, script):
  w.clients.add(threading.get_ident())
  for (op, x, y) in script:
    if op <= 2: subscribe(w, x, y & 1, bridge=y % len(w.bridges))
    elif op == 3: cancel(w.ctxs[x % len(w.ctxs)])
    elif op == 4:
      if w.subs: unsubscribe(w.subs[x % len(w.subs)])
    elif op == 5:                          # dropping the handle keeps the subscription
      if w.subs: w.subs[x % len(w.subs)].sub = None
    elif op == 6: time.sleep([0.05, 0.5][x & 1])
    elif op == 7:
      for _ in range(x): _sim.yield_()
    elif op == 8:
      b = w.bridges[y % len(w.bridges)]
      if b.i: close(b); _sim.probe('closed')

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
w_unraisable = []
def unraisable(u):
  if u.exc_type is RuntimeWarning and 'PythonCallbackBridge' in str(u.exc_value): return
  fail('unraisable', u.exc_type, u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (client, cancel, subscribe, unsubscribe, close, run_cb): watch_fn(f)

def scenario():
  alive = threading.active_count()
  refs, tokens, probe = play()
  gc.collect()
  for r in refs:
    cb = r()
    if cb is not None: fail('callback-leaked', 'the callback of subscription', cb.s.i, 'is still alive', 'runs', cb.s.runs, 'ended', cb.s.un_begin)
  for r in tokens:
    if r() is not None: fail('result-leaked', 'the result of a callback is still alive')
  # Bridges that were dropped without closing end their workers too.
  time.sleep(1)
  check(threading.active_count() == alive + 1, 'worker-left', [t.name for t in threading.enumerate()])

def play():
  w = World()
  _sim.max_steps(600000)
  _sim.preempt([0, 3, 10, 40][choose(4)])
  _sim.spurious([0, 0, 30][choose(3)])
  strict = choose(3) == 1
  warnings.simplefilter('error' if strict else 'ignore')
  if choose(4) == 1: _sim.early_timers(30)
  w.ids = itertools.count(); w.subs = []; w.tokens = []; w.clients = {threading.get_ident()}; w.worker = {}; w.inside = {}
  w.ctxs = [Ctx(i) for i in range(1 + choose(3))]
  w.bridges = [Bridge(0, None)] + [Bridge(i + 1, clib.PythonCallbackBridge()) for i in range(choose(3))]
  lazily = choose(2)          # the default bridge is made by the first subscription
  if not lazily: callbacks_mod.default_callback_bridge()
  n = choose(4)
  threads = []
  for t in range(n):
    s = [(choose(9), choose(8), choose(8)) for _ in range(1 + choose(5))]
    threads.append(threading.Thread(target=client, args=(w, s)))
  for t in threads: t.start()
  client(w, [(choose(9), choose(8), choose(8)) for _ in range(1 + choose(4))])
  for t in threads: t.join()
  _sim.early_timers(0)
  # Everything that is due is delivered, without any further help.
  b0 = callbacks_mod.default_callback_bridge()
  check(b0 is callbacks_mod.default_callback_bridge(), 'two-default-bridges')
  w.bridges[0].b = b0
  time.sleep(10)
  for s in list(w.subs): verify(w, s)
  drop = choose(3)
  if drop == 0:
    for c in w.ctxs: cancel(c)
    time.sleep(10)
    for s in list(w.subs): verify(w, s)
  if drop == 1:
    for b in w.bridges[1:]: close(b)
  # Dropping contexts and handles releases callbacks that were never due.
  refs = [s.ref for s in w.subs]
  for s in w.subs: s.sub = None; s.c = None; s.bridge = None    # (a callback must not hold its own context)
  s = c = b = b0 = None
  tokens = w.tokens
  w.subs = []; w.ctxs = []; w.bridges = []
  del threads
  gc.collect()
  time.sleep(10)
  return refs, tokens, None

def verify(w, s):
  if not s.ok: check(not s.runs, 'called-unsubscribed'); return
  c, b = s.c, s.bridge
  ran = len(s.runs)
  check(ran <= s.may, 'callback-twice')
  if s.un_end is not None and (c.begin is None or s.un_end < c.begin):
    check(ran == 0, 'called-unsubscribed', 'subscription', s.i, 'was ended before the cancellation')
    _sim.probe('unsubscribed')
    check(gone(s), 'callback-leaked', 'subscription', s.i, 'was ended')
    return
  if c.begin is None: check(ran == 0, 'called-uncancelled'); return
  if b.close_begin is not None and b.close_begin < (s.runs[-1] if ran == s.may else 1 << 62):
    return
  if s.un_begin is not None and s.un_begin < c.end:
    return                  # raced; at most once is all there is
  check(ran == s.may, 'callback-lost', 'subscription', s.i, 'of a cancelled context was never called')
  _sim.probe('called')
  if s.begin > c.end: _sim.probe('called-late-subscription')
  check(s.finished == s.may, 'callback-unfinished')
  check(gone(s), 'callback-leaked', 'subscription', s.i, 'has been called')

def gone(s):  # no longer
  if s.ref() is None: return True
  gc.collect()
  return s.ref() is None
)PY";

extern "C" void sim_init() { pyhost::boot_arolla(kScript); }
extern "C" void sim_scenario() { pyhost::run(); }
