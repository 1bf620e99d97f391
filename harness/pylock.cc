// C17: the cancellation-aware lock.
//
// Real: py_lock.cc, py_cancellation.cc, util/cancellation and CPython.
#include "pyarolla.h"

extern "C" const char* const sim_harness_name = "pylock";

static const char kScript[] = R"PY(
load_tasks()
import itertools
threading._dangling.clear()
watch_module(threading)
choose = _sim.choose
seq = _sim.seq
abc = arolla.abc

class Ctx:
  def __init__(self, i):
    self.i = i; self.ctx = abc.CancellationContext(); self.begin = None; self.end = None; self.msgs = []
class World: pass

def stamp(o, name):  # the first time; atomic, as it is not watched
  if getattr(o, name) is None: setattr(o, name, seq())
def cancel(w, c):
  m = 'stop-%d-%d' % (c.i, len(c.msgs))
  c.msgs.append(m)
  stamp(c, 'begin')
  c.ctx.cancel(m)
  stamp(c, 'end')

def took(w, L, who):
  # The critical section: a plain read-modify-write that preemption would tear.
  a = w.count[L]
  for _ in range(choose(3)): _sim.yield_()
  check(w.holder[L] == who, 'held-twice', 'lock', L)
  w.count[L] = a + 1

def free(w, L, who, how):
  check(w.holder[L] == who, 'held-twice', 'lock', L, w.holder[L], who)
  me = object()
  w.busy[L].append(me); next(w.ops[L])
  w.holder[L] = None
  try:
    if how == 0: r = w.locks[L].release()
    else: r = w.locks[L].__exit__(RuntimeError, RuntimeError('x'), None)   # a failing body
    check(r is None, 'release-result', r)
  except RuntimeError as e: fail('release-failed', e)
  finally:
    next(w.ops[L]); w.busy[L].remove(me)

def acquire(w, who, L, c, mode):
  """One attempt; True if the lock is now held by `who`."""
  lock = w.locks[L]
  s = seq()
  before = c is not None and c.end is not None
  me = object()
  busy0 = len(w.busy[L]); w.busy[L].append(me)
  ops0 = next(w.ops[L])
  held0 = w.holder[L] is not None
  try:
    if mode == 0: r = lock.acquire()
    elif mode == 1: r = lock.acquire(blocking=False)
    elif mode == 2: r = lock.__enter__()
    elif mode == 3: r = lock.acquire(True)
    else: r = lock.acquire(False)
    if r is True:
      check(w.holder[L] is None, 'held-twice', 'lock', L, 'given to', who, 'while held by', w.holder[L])
      w.holder[L] = who
  except ValueError as e:
    check(c is not None and c.begin is not None, 'cancelled-unasked', who, e)
    check(any(str(e) == '[CANCELLED] ' + m for m in c.msgs), 'wrong-error', e, c.msgs)
    if not before: _sim.probe('cancelled-while-waiting')
    else: _sim.probe('already-cancelled')
    return False
  finally:
    ops1 = next(w.ops[L]); w.busy[L].remove(me)
  check(r is True or r is False, 'acquire-result', r)
  check(not before, 'acquired-although-cancelled', who, 'acquire() returned', r, 'in a context cancelled before')
  if not r:
    check(mode in (1, 4), 'blocking-acquire-failed', who)
    contended = busy0 or ops1 - ops0 > 1
    check(held0 or contended, 'refused-free-lock', who, 'the lock was free and nobody else was using it')
    _sim.probe('refused')
    return False
  took(w, L, who)
  _sim.probe('acquired')
  return True

def in_context(c, fn, *args):
  if c is None: return fn(*args)
  try: return abc.run_in_cancellation_context(c.ctx, fn, *args)
  except ValueError:
    check(c.begin is not None, 'cancelled-unasked')
    return False

def client(w, who, c, script):
  for (op, L, x) in script:
    if op <= 4:
      # Cancellation may come in between: acquire inside the context, give back outside.
      if in_context(c, acquire, w, who, L, c, op):
        if x % 3 == 0: time.sleep([0.1, 1][x & 1])
        if x == 4 and c is not None: cancel(w, c)
        if x == 5:                      # another thread gives it back
          w.handed.append((L, who)); w.hand.release(); _sim.probe('handed-over')
          continue
        free(w, L, who, x == 6)
    elif op == 5: cancel(w, w.ctxs[x % len(w.ctxs)])
    elif op == 6: time.sleep([0.05, 0.5, 2][x % 3])
    elif op == 7:
      for _ in range(x): _sim.yield_()

def giver(w):
  while True:
    w.hand.acquire()
    if not w.handed: return
    L, who = w.handed.pop()
    for _ in range(choose(3)): _sim.yield_()
    free(w, L, who, 0)

def hook(args): fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u): fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
for f in (client, acquire, took, free, cancel, giver): watch_fn(f)

def scenario():
  w = World()
  _sim.max_steps(400000)
  _sim.preempt([0, 3, 10, 40][choose(4)])
  _sim.spurious([0, 0, 30][choose(3)])
  if choose(4) == 1: _sim.early_timers(30)
  duel = choose(3) == 1        # little else happens: waiters against a cancellation
  if duel: _sim.probe('duel')
  nl = 1 + (not duel and choose(3) == 2)
  w.locks = [tasks.Lock() for _ in range(nl)]
  w.holder = [None] * nl; w.count = [0] * nl; w.busy = [[] for _ in range(nl)]; w.ops = [itertools.count() for _ in range(nl)]
  w.ctxs = [Ctx(i) for i in range(1 + choose(3))]
  w.handed = []; w.hand = threading.Semaphore(0)
  n = 1 + choose(2 if duel else 4)
  held = duel or choose(2)     # hold lock 0 until the cancelled waiters are gone
  g = threading.Thread(target=giver, args=(w,))
  if not duel: g.start()
  threads = []
  for t in range(n):
    c = None if not duel and choose(3) == 0 else w.ctxs[choose(len(w.ctxs))]
    s = [((0 if choose(3) == 0 else choose(8)), choose(nl), choose(8)) for _ in range(1 if duel else 1 + choose(4))]
    if duel: s = [(choose(2) * 2, 0, 0)]
    threads.append((threading.Thread(target=client, args=(w, 't%d' % t, c, s)), c))
  if held:
    check(w.locks[0].acquire(), 'blocking-acquire-failed')
    w.holder[0] = 'main'
    took(w, 0, 'main')
  started = not duel and choose(2)
  for t, _ in threads: t.start()
  if started: time.sleep(0.1)
  if duel:
    for _ in range(choose(8)): _sim.yield_()
  else:
    client_script = [(5 + choose(3), 0, choose(8)) for _ in range(choose(4))]
    client(w, 'main', None, client_script)
  if held:
    # Whoever waits in a cancelled context leaves although the lock stays held.
    cs = [c for c in w.ctxs if duel or choose(2)]
    for c in cs: cancel(w, c)
    if nl == 1:
      _sim.probe('held-throughout')
      for t, c in threads:
        if c in cs: t.join()
    free(w, 0, 'main', 0)
  for t, _ in threads: t.join()
  # Handed-over locks come back by themselves.
  w.hand.release() if not w.handed else None
  while g.is_alive():
    w.hand.release(); g.join(0.2)
  for L in range(nl):
    check(w.holder[L] is None and not w.busy[L], 'lock-left-held', L, w.holder[L])
    if choose(2):
      try: w.locks[L].release()
      except RuntimeError as e: check('unlocked' in str(e), 'wrong-error', e)
      else: fail('released-unlocked', 'release() of a free lock succeeded')
    check(w.locks[L].acquire(blocking=False) is True, 'unusable-lock', 'a free lock cannot be acquired')
    check(w.locks[L].acquire(blocking=False) is False, 'held-twice', 'acquired twice')
    w.locks[L].release()
  refs = [weakref.ref(t) for t, _ in threads]
  del threads
)PY";

extern "C" void sim_init() { pyhost::boot_arolla(kScript); }
extern "C" void sim_scenario() { pyhost::run(); }
