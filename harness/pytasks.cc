// C16: tasks submitted to executors, their futures, and their cancellation.
//
// Real: py/arolla/experimental/_tasks/submit.py, py/arolla/abc/cancellation.py,
// py_cancellation.cc and everything below them, CPython's interpreter, its
// threads, locks, concurrent.futures and asyncio's loop.  Stand-in: the loop's
// file selector (a condition), pybind11.
#include "pyarolla.h"

extern "C" const char* const sim_harness_name = "pytasks";

static const char kScript[] = R"PY(
load_tasks()
threading._dangling.clear()
watch_module(threading); watch_module(futures._base); watch_module(futures.thread)
choose = _sim.choose
seq = _sim.seq
now = _sim.now
GRACE = 30.0

class Boom(Exception): pass
class BaseBoom(BaseException): pass

class Rec:
  """What happened to one submitted task."""
  def __init__(self, i):
    self.i = i; self.fut = None; self.rejected = False
    self.begin = None; self.end = None; self.runs = 0
    self.begin_t = None; self.end_t = None
    self.value = None; self.error = None      # what the body did
    self.ki = None                            # time of an injected interrupt
    self.cancels = []                         # (seq before, seq after or None, time before)
    self.seen = []                            # (start, end, outcome)
    self.cbs = []                             # per registered callback: list of calls
    self.submitted = None
    self.cancelled_seen = None

def outcome_of(fut, timeout=None):
  try: return ('value', fut.result(timeout))
  except futures.TimeoutError: return None
  except futures.CancelledError: return ('cancelled', None)
  except BaseException as e: return ('error', e)

def settled(rec, s, out):
  e = seq()
  for (_, _, o) in rec.seen:
    check(o[0] == out[0] and o[1] is out[1], 'outcome-changed', 'task', rec.i, 'was', o, 'now', out)
  rec.seen.append((s, e, out))

def look_at_cancelled(rec):
  """Inside the body: the context agrees with the requests made so far."""
  s = seq()
  ends = [c for c in rec.cancels if c[1] is not None]
  c = arolla.abc.cancelled()
  if ends and not c: fail('cancel-not-signalled', 'task', rec.i, 'was cancelled but its context is not')
  if c:
    check(rec.cancels, 'cancelled-unasked', 'task', rec.i)
    rec.cancelled_seen = s
  return c

def body(rec, kind, dur, value):
  rec.runs += 1
  check(rec.runs == 1, 'ran-twice', 'task', rec.i)
  rec.begin_t = now(); rec.begin = seq()
  look_at_cancelled(rec)
  try:
    try:
      if kind == 0: rec.value = value
      elif kind == 1: raise Boom()
      elif kind == 2: raise BaseBoom()
      elif kind == 3:                       # polite
        end = now() + dur
        while now() < end:
          time.sleep(0.5)
          look_at_cancelled(rec)
          arolla.abc.raise_if_cancelled()
        rec.value = value
      elif kind == 4:                       # stubborn
        end = now() + dur
        while now() < end: time.sleep(0.5)
        rec.value = value
      elif kind == 5:                       # swallows the interrupt
        end = now() + dur
        while now() < end:
          try: time.sleep(0.5)
          except KeyboardInterrupt:
            note_ki(rec); break
        rec.value = value
      elif kind == 6:                       # yields a lot, no time passes
        for _ in range(dur): _sim.yield_()
        look_at_cancelled(rec)
        rec.value = value
    except KeyboardInterrupt as e:
      note_ki(rec); rec.error = e; raise
    except BaseException as e:
      rec.error = e; raise
  finally:
    rec.end_t = now(); rec.end = seq()
  return rec.value

def note_ki(rec):
  check(rec.ki is None, 'interrupted-twice', 'task', rec.i)
  rec.ki = now()
  _sim.probe('interrupted')
  check(rec.cancels, 'interrupted-unasked', 'task', rec.i, 'was interrupted but never cancelled')
  t = min(c[2] for c in rec.cancels)
  check(now() - t >= GRACE - 0.001, 'interrupted-early', 'task', rec.i, 'interrupted', now() - t, 's after the first cancellation')

def do_cancel(rec):
  c = [seq(), None, now()]
  rec.cancels.append(c)
  r = rec.fut.cancel()
  c[1] = seq()
  check(rec.fut.done(), 'cancel-not-done', 'task', rec.i, 'is not done after cancel() returned')
  try: bool(r)
  except TypeError: pass
  else: fail('cancel-has-truth-value', r)

def do_callback(rec, style):
  calls = []
  rec.cbs.append(calls)
  def cb(f):
    calls.append(seq())
    check(len(calls) == 1, 'callback-twice', 'task', rec.i)
    check(f is rec.fut or rec.fut is None, 'callback-argument', 'task', rec.i)
    check(f.done(), 'callback-before-result', 'task', rec.i)
    s = seq()
    o = outcome_of(f, 0)
    check(o is not None, 'callback-before-result', 'task', rec.i)
    settled(rec, s, o)
    if style == 1: raise Boom()
    if style == 2: raise BaseBoom()
    if style == 3: f.cancel()
    if style == 4:
      inner = []
      rec.cbs.append(inner)
      f.add_done_callback(lambda g: inner.append(seq()))
      check(len(inner) == 1, 'callback-on-done-not-called', 'task', rec.i)
    if style == 5: raise KeyboardInterrupt()
  was_done = bool(rec.seen)
  rec.fut.add_done_callback(cb)
  if was_done: check(len(calls) == 1, 'callback-on-done-not-called', 'task', rec.i)

def do_result(rec, timeout):
  s = seq(); t = now()
  known = bool(rec.seen)
  o = outcome_of(rec.fut, timeout)
  if o is None:
    check(not known, 'timeout-on-settled', 'task', rec.i)
    check(now() - t >= timeout - 0.001, 'early-timeout', 'task', rec.i, 'after', now() - t, 'of', timeout)
    _sim.probe('result-timed-out')
  else:
    check(rec.fut.done(), 'result-not-done', 'task', rec.i)
    settled(rec, s, o)

def do_done(rec):
  known = bool(rec.seen)
  d = rec.fut.done()
  check(d or not known, 'done-went-back', 'task', rec.i)
  if d:
    s = seq()
    o = outcome_of(rec.fut, 0)
    check(o is not None, 'done-without-result', 'task', rec.i)
    settled(rec, s, o)
  repr(rec.fut)

class World: pass
class Token:
  """A task's argument and result; must not outlive the task and its observers."""
  __slots__ = ('i', '__weakref__')
  def __init__(self, i): self.i = i

def submit_one(w, rec):
  kind = w.kinds[rec.i]; dur = w.durs[rec.i]
  rec.submitted = seq()
  value = Token(rec.i)
  w.tokens.append(weakref.ref(value))
  try:
    if w.kwargs: fut = tasks.submit(w.ex, body, rec, kind, dur=dur, value=value)
    else: fut = tasks.submit(w.ex, body, rec, kind, dur, value)
  except RuntimeError as e:
    rec.rejected = True
    check(w.shutdown_begun or 'start new thread' in str(e), 'submit-refused', e)
    _sim.probe('rejected')
    return
  rec.fut = fut

def client(w, script):
  for (op, k, x) in script:
    rec = w.recs[k]
    if op == 9:
      if w.shutdown_begun is None:
        w.shutdown_begun = seq(); w.cancel_futures = bool(x & 1)
        _sim.probe('shutdown')
        w.ex.shutdown(wait=bool(x & 2), cancel_futures=w.cancel_futures)
      continue
    if op == 8:
      time.sleep([0.1, 1, 7, 29.5, 31][x % 5])
      continue
    if op == 7:
      for _ in range(x): _sim.yield_()
      continue
    if rec.fut is None: continue
    if op in (0, 1, 2): do_cancel(rec)
    elif op == 3: do_result(rec, [0, 0.1, 3, 35][x % 4])
    elif op == 4: do_callback(rec, x % 6)
    elif op == 5: do_done(rec)
    elif op == 6: do_result(rec, None)

class Log:
  def __init__(self): self.critical_calls = 0
  def critical(self, *a, **k):
    fail('worker-died', 'an executor thread ended with an exception', *a)
  def exception(self, *a, **k):
    fail('internal-callback-failed', 'an internal done-callback raised', *a, sys.exc_info()[1])
  def error(self, *a, **k): self.exception(*a)
futures._base.LOGGER = Log()
def hook(args):
  fail('thread-died', args.exc_type, args.exc_value)
threading.excepthook = hook
def unraisable(u):
  fail('unraisable', u.exc_value, u.err_msg)
sys.unraisablehook = unraisable
def loop_error(loop, ctx):
  fail('timer-failed', ctx.get('message'), ctx.get('exception'))
submit_mod._event_loop.set_exception_handler(loop_error) if hasattr(submit_mod, '_event_loop') else None

for f in (client, do_cancel, do_callback, do_result, do_done, body, submit_one): watch_fn(f)

def scenario():
  refs = play()
  gc.collect()
  for r in refs:
    t = r()
    if t is not None:
      fail('task-leaked', 'the argument of task', t.i, 'is still alive after the task, its future and every observer are gone')

def play():
  w = World()
  w.tokens = []
  _sim.max_steps(1000000)
  _sim.preempt([0, 4, 12, 40, 150][choose(5)])
  _sim.spurious([0, 0, 20][choose(3)])
  w.early = choose(4) == 1
  if w.early: _sim.early_timers(30)
  n = 1 + choose(4)
  nw = 1 + choose(3)
  w.kwargs = choose(2)
  w.recs = [Rec(i) for i in range(n)]
  w.kinds = [choose(7) for _ in range(n)]
  w.durs = [[1, 5, 20, 29, 31, 45, 70][choose(7)] for _ in range(n)]
  w.shutdown_begun = None; w.cancel_futures = False
  if choose(8) == 1: _sim.create_faults(60)
  w.ex = futures.ThreadPoolExecutor(nw)
  nc = choose(4)
  scripts = []
  for c in range(nc):
    s = []
    for _ in range(1 + choose(5)):
      op = choose(10)
      if op == 9 and choose(3): op = 8
      s.append((op, choose(n), choose(8)))
    scripts.append(s)
  late = choose(2)            # submit while the clients already run
  w.workers = nw
  warm = choose(2)            # keep the workers busy before the rest arrives
  if warm:
    for k in range(min(nw, n)): w.kinds[k] = 3 + choose(3)
  def submit_all():
    for rec in w.recs:
      if warm and rec.i == nw: time.sleep(0.2)
      submit_one(w, rec)
  if not late: submit_all()
  threads = [threading.Thread(target=client, args=(w, s)) for s in scripts]
  for t in list(threads):
    try: t.start()
    except RuntimeError: threads.remove(t)
  if late: submit_all()
  client(w, [(choose(9), choose(n), choose(8)) for _ in range(choose(4))])
  for t in threads: t.join()
  _sim.create_faults(0)
  # Everything that was accepted settles.
  for rec in w.recs:
    if rec.fut is None: continue
    do_result(rec, None)
    do_done(rec)
  # The executor still serves.
  if w.shutdown_begun is None and choose(2):
    fs = [tasks.submit(w.ex, lambda i=i: ('extra', i)) for i in range(nw + 1)]
    for i, f in enumerate(fs): check(f.result() == ('extra', i), 'extra-task-result')
    _sim.probe('executor-reused')
  w.ex.shutdown(wait=True)
  time.sleep(100)             # let the grace periods pass
  for rec in w.recs: verify(w, rec)
  return w.tokens

def verify(w, rec):
  i = rec.i
  check(rec.runs <= 1, 'ran-twice', i)
  if rec.fut is None: return
  out = rec.seen[0][2]
  _sim.probe('settled-' + out[0])
  first = min(s[1] for s in rec.seen)
  for c in rec.cbs: check(len(c) == 1, 'callback-count', 'task', i, 'a done callback ran', len(c), 'times')
  done = [c for c in rec.cancels if c[1] is not None]
  if rec.runs:
    if rec.end is None:       # the interrupt struck the bookkeeping below `finally`
      check(rec.cancels, 'body-lost', 'task', i)
      rec.end = 1 << 62; rec.end_t = min(c[2] for c in rec.cancels) + GRACE
    for c in done:
      if c[1] > rec.begin: continue
      # It may have been picked up just before; not if every worker was busy.
      busy = [r for r in w.recs if r is not rec and r.runs and r.begin < rec.submitted and r.end > c[1]]
      check(len(busy) < w.workers, 'ran-after-cancel', 'task', i, 'started after cancel() had returned while it was queued')
  if out[0] == 'value':
    check(rec.runs == 1 and rec.error is None and type(out[1]) is Token and out[1].i == i, 'wrong-value', 'task', i, out)
  if out[0] == 'error':
    check(rec.runs == 1 and out[1] is rec.error, 'wrong-error', 'task', i, out, rec.error)
  if out[0] == 'cancelled':
    dropped = w.shutdown_begun is not None and w.cancel_futures and not rec.runs
    asked = any(c[0] < first for c in rec.cancels)
    check(dropped or asked, 'cancelled-unasked', 'task', i)
  else:
    check(rec.runs == 1, 'settled-without-running', 'task', i)
    check(rec.end < first, 'settled-before-finish', 'task', i)
    for c in done: check(rec.end < c[1], 'cancel-ignored', 'task', i, 'settled with', out, 'although cancel() returned before it finished')
  if rec.runs and not rec.cancels: check(rec.ki is None, 'interrupted-unasked', i)
  # Forced cancellation: not before the grace period, and not much later.
  running = [c for c in done if rec.runs and rec.begin < c[0] and c[1] < rec.end]
  for c in done:
    busy = [r for r in w.recs if r is not rec and r.runs and r.begin < rec.submitted and r.end > c[1]]
    if len(busy) >= w.workers: _sim.probe('cancelled-while-queued'); break
  if running:
    _sim.probe('cancelled-while-running')
    if w.early: return
    late = rec.end_t - min(c[2] for c in running)
    check(late <= GRACE + 1.5, 'not-interrupted', 'task', i, 'ran on for', late, 's after cancel()')
)PY";

extern "C" void sim_init() { pyhost::boot_arolla(kScript); }
extern "C" void sim_scenario() { pyhost::run(); }
