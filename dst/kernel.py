# -*- coding: us-ascii -*-
"""Deterministic simulation kernel (Python 2, runs under Jython).

One World = one simulated execution.  Real Java threads carry the simulated
tasks, but exactly one of them runs at any time: which one, when it is
preempted (any sim primitive, any source line of traced code), when each
pending event (network delivery, timer, fault) fires, and every fault decision
are all drawn from World.draw(), i.e. from one PRNG or from a recorded choice
list.  A run is a pure function of (code, choice list).
"""
import sys
import heapq
import traceback
from java.lang import Thread as JThread, Runnable, Throwable
from java.util import Random as JRandom
from java.util.concurrent import Semaphore as JSemaphore, TimeUnit
from java.lang import Long as JLong
import SimTracer as TR

FAIR = 30000             # source lines between two forced turns of somebody else
TRACED = 'SIM:'          # co_filename prefix of code under test


class SimKill(BaseException):
  """Unwinds a task left over when a run ends."""


class Violation(Exception):
  def __init__(self, kind, detail=''):
    Exception.__init__(self, kind, detail)
    self.kind = kind
    self.detail = detail


class Unsupported(Exception):
  pass


# ---------------------------------------------------------------- carriers
class _Carrier(JThread):
  """A reusable Java thread; runs one job at a time."""
  def __init__(self, pool):
    JThread.__init__(self)
    self.setDaemon(True)
    self.pool = pool
    self.sem = JSemaphore(0)
    self.job = None

  def run(self):
    TR.install()
    while True:
      self.sem.acquire()
      job = self.job
      if job is None:
        return
      self.job = None
      try:
        job()
      except:
        sys.__stderr__.write('carrier job failed: %s\n' % traceback.format_exc())


class _Pool(object):
  def __init__(self):
    self.free = []

  def get(self):
    if self.free:
      return self.free.pop()
    c = _Carrier(self)
    c.start()
    return c

  def put(self, c):
    self.free.append(c)

POOL = _Pool()
WORLD = None


def _on_line(name, line):
  w = WORLD
  if w is not None:
    w.on_step(name, line)
TR.callback = _on_line


def _on_focus(name, line):
  w = WORLD
  if w is not None:
    w.on_focus(name, line)
TR.focusCallback = _on_focus


# ------------------------------------------------------------------- tasks
RUNNABLE, BLOCKED, DONE = 'runnable', 'blocked', 'done'


class Task(object):
  def __init__(self, world, tid, name, fn, args, kw):
    self.world = world
    self.id = tid
    self.name = name
    self.fn, self.args, self.kw = fn, args, kw
    self.state = RUNNABLE
    self.why = 'new'
    self.exc = None            # (type, value, tb text) that ended the task
    self.result = None
    self.kills = 0
    self.locals = {}
    self.group = None
    self.done_waiters = []
    self.carrier = POOL.get()
    self.carrier.job = self.body
    self.sem = self.carrier.sem
    self.held = 0

  def body(self):
    w = self.world
    clean = True
    try:
      try:
        if not w.ending:
          self.result = self.fn(*self.args, **self.kw)
      except SystemExit:
        pass
      except SimKill:
        pass
      except Violation, e:
        w.fail(e.kind, e.detail)
        w.stop('violation')
      except Throwable, e:   # Java exceptions (StackOverflowError ...)
        self.exc = (str(e.getClass().getName()), str(e), '')
      except:
        t, v, tb = sys.exc_info()
        self.exc = (getattr(t, '__name__', str(t)), v, ''.join(traceback.format_exception(t, v, tb)))
        self.exc_in_code = _touches_code(tb)
    finally:
      self.state = DONE
      w.task_done(self)

  def __repr__(self):
    return '<task %d %s %s(%s)>' % (self.id, self.name, self.state, self.why)


def _touches_code(tb):
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(TRACED):
      return True
    tb = tb.tb_next
  return False


class Waiter(object):
  __slots__ = ('task', 'fired', 'result')
  def __init__(self, task):
    self.task = task
    self.fired = False
    self.result = None

  def fire(self, result=None):
    if not self.fired:
      self.fired = True
      self.result = result
      t = self.task
      if t.state == BLOCKED:
        t.state = RUNNABLE
        t.why = ''
        if t.world.dormant: t.world.rouse()
      return True
    return False


class Event(object):
  __slots__ = ('fn', 'label', 'cancelled')
  def __init__(self, fn, label):
    self.fn = fn
    self.label = label
    self.cancelled = False


# ------------------------------------------------------------------- world
class World(object):
  def __init__(self, seed=0, replay=None, max_steps=60000, label=''):
    self.seed = seed
    self.rng = JRandom((seed * 2654435761 + 97) & 0x7fffffffffff)
    for i in range(4):
      self.rng.nextInt()
    self.replay = replay
    self.choices = []
    self.pos = 0
    self.label = label
    self.tasks = []
    self.current = None
    self.heap = []
    self.evseq = 0
    self.now = 0.0
    TR.steps = 0
    self.max_steps = max_steps
    TR.nextStop = min(max_steps, FAIR)
    self.final_steps = None
    self.preempt_at = None
    self.dormant = False
    self.focus = None
    self.focus_draws = 0
    TR.focus(0, 0)
    self.preempts_left = 0
    self.gap = 50
    self.stall = 1e18          # how far ahead an event may fire while tasks can run
    self.fair_at = FAIR
    self.fair_last = 0
    self.abort = None
    self.p_switch = 0          # per-primitive switch probability, in 1/256
    self.ending = False
    self.outcome = None
    self.violation = None
    self.errors = []
    self.done_sem = JSemaphore(0)
    self.kill_sem = JSemaphore(0)
    self.hseq = 0
    self.history = []
    self.trace = []            # human readable schedule/fault trace
    self.sched_hash = 0
    self.switches = 0
    self.events_fired = 0
    self.faults = {}           # kind -> times fired
    self.probes = {}
    self.cleanup = []
    self.unsupported = []
    self.on_idle = None
    self.logged = []           # what the code logged with exception()

  @property
  def steps(self):
    return int(TR.steps if self.final_steps is None else self.final_steps)

  # ---- randomness -------------------------------------------------------
  def draw(self, sampler, limit, label=''):
    """One recorded decision in [0, limit)."""
    if self.replay is not None:
      if self.pos < len(self.replay):
        v = self.replay[self.pos]
        if v >= limit:
          v = limit - 1
      else:
        v = 0
    else:
      v = sampler()
    self.pos += 1
    self.choices.append(v)
    return v

  def choose(self, n, label=''):
    if n <= 1:
      return 0
    return self.draw(lambda: self.rng.nextInt(n), n, label)

  def pick(self, seq, label=''):
    return seq[self.choose(len(seq), label)]

  def flip(self, p, label=''):
    """True with probability p; the simplest choice (0) is False."""
    if p <= 0:
      return False
    return self.draw(lambda: int(self.rng.nextDouble() < p), 2, label) == 1

  def weighted(self, weights, label=''):
    """index drawn by integer weights; put the simplest outcome first."""
    def sampler():
      x = self.rng.nextInt(sum(weights))
      for i, w in enumerate(weights):
        if x < w:
          return i
        x -= w
    return self.draw(sampler, len(weights), label)

  def rand_int(self, lo, hi, label=''):
    """integer in [lo, hi]"""
    return lo + self.choose(hi - lo + 1, label)

  def skewed(self, hi, label=''):
    """integer in [0, hi], small values likelier (log-uniform)."""
    if hi <= 0:
      return 0
    def sampler():
      b = self.rng.nextInt(len(bin(hi)) - 1)
      v = self.rng.nextInt(1 << b) if b else 0
      return min(v, hi)
    return self.draw(sampler, hi + 1, label)

  def shuffle(self, xs):
    for i in range(len(xs) - 1, 0, -1):
      j = i - self.choose(i + 1, 'shuffle')   # 0 keeps the order
      xs[i], xs[j] = xs[j], xs[i]
    return xs

  # ---- bookkeeping ------------------------------------------------------
  def rec(self, kind, **kw):
    """append a history event, return its global sequence number"""
    self.hseq += 1
    kw['seq'] = self.hseq
    kw['kind'] = kind
    kw['t'] = self.now
    self.history.append(kw)
    return self.hseq

  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n
    self.note('fault', kind)

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def note(self, op, what=''):
    self.mix(op)
    if len(self.trace) < 4000:
      c = self.current
      self.trace.append('%.4f %s %s %s' % (self.now, c and c.name or '-', op, what))

  def mix(self, s):
    h = self.sched_hash
    c = self.current
    h = (h * 31 + (c and c.id or 0) * 7 + hash_str(s)) & 0xffffffffffff
    self.sched_hash = h

  def fail(self, kind, detail=''):
    if self.violation is None:
      self.violation = (kind, detail)

  def require(self, cond, kind, detail=''):
    if not cond:
      raise Violation(kind, detail)

  # ---- events -----------------------------------------------------------
  def at(self, t, fn, label=''):
    self.evseq += 1
    ev = Event(fn, label)
    heapq.heappush(self.heap, (t, self.evseq, ev))
    if self.dormant and t <= self.now + self.stall:
      self.rouse()
    return ev

  def after(self, d, fn, label=''):
    return self.at(self.now + d, fn, label)

  def _peek(self):
    h = self.heap
    while h and h[0][2].cancelled:
      heapq.heappop(h)
    return h and h[0] or None

  def _fire_next(self):
    t, s, ev = heapq.heappop(self.heap)
    if t > self.now:
      self.now = t
    self.events_fired += 1
    self.note('event', ev.label)
    try:
      ev.fn()
    except Violation, e:
      self.fail(e.kind, e.detail)
      self.stop('violation')

  # ---- tasks ------------------------------------------------------------
  def spawn(self, fn, args=(), kw=None, name=None):
    if self.ending:
      raise SimKill()
    t = Task(self, len(self.tasks) + 1, name or ('task%d' % (len(self.tasks) + 1)), fn, args, kw or {})
    c = self.current
    if c is not None:
      t.group = c.group
    self.tasks.append(t)
    self.note('spawn', t.name)
    if self.dormant: self.rouse()
    return t

  def tune(self, preempts=0, gap=50, p_switch=64, stall=1e18):
    """per-run schedule knobs: number of forced preemptions, their spacing in
    source lines, probability (/256) of switching at a primitive."""
    self.preempts_left = preempts
    self.gap = max(1, gap)
    self.p_switch = p_switch
    self.stall = stall
    self.dormant = False
    self.focus = None
    if preempts and self.weighted([3, 1], 'focus'):
      self.focus = self.pick([4, 12, 40], 'focus on'), self.choose(1 << 16, 'focus salt'), self.pick([0.1, 0.4], 'focus p')
      self.focus_draws = 300
      TR.focus(self.focus[0], self.focus[1])
    self._arm()

  def _arm(self):
    if self.preempts_left > 0:
      g = self._gap()
      if g == 0:
        self.preempt_at = None
        self.preempts_left = 0
      else:
        self.preempt_at = TR.steps + g
    else:
      self.preempt_at = None
    self._stops()

  def _stops(self):
    n = min(self.preempt_at or self.max_steps, self.max_steps, self.fair_at)
    if self.abort is not None:
      n = min(n, self.abort[1])
    TR.nextStop = n

  def _gap(self):
    """lines until the next preemption: often few, as often spread evenly; 0 ends them"""
    hi = self.gap
    def sampler():
      k = self.rng.nextInt(32)
      if k == 0:
        return 0
      if k < 16:
        b = self.rng.nextInt(len(bin(hi)) - 2) + 1
        return min(1 + self.rng.nextInt(1 << b), hi)
      return 1 + self.rng.nextInt(hi)
    return self.draw(sampler, hi + 1, 'gap')

  def rouse(self):
    self.dormant = False
    if self.focus and self.focus_draws:
      TR.focusMod = self.focus[0]
    self._arm()

  def abort_after(self, n, exc, kind='operation-aborted'):
    """fault: the current task fails with exc at the n-th line of code under test from here"""
    self.abort = (self.current, TR.steps + max(1, n), exc, kind)
    self._stops()

  def abort_off(self):
    """whether the fault was still to come"""
    left = self.abort is not None
    self.abort = None
    self._stops()
    return left

  def on_step(self, name, line):
    """called from the tracer when the step counter reaches next_stop"""
    cur = self.current
    if self.ending:
      self._killed(cur)
      return
    if TR.steps >= self.max_steps:
      self.stop('step-limit')
      self._schedule(cur)
    a = self.abort
    if a is not None and TR.steps >= a[1]:
      if a[0] is cur:
        self.abort = None
        self._stops()
        self.fault(a[3])
        self.note('abort', '%s:%d' % (name, line))
        raise a[2]
      self.abort = (a[0], TR.steps + 20, a[2], a[3])     # when its task runs again
      self._stops()
      return
    if TR.steps >= self.fair_at:
      self.fair_at = TR.steps + FAIR
      self._stops()
      self._fair(cur)
      return
    head = self._peek()
    if not (head is not None and head[0] <= self.now + self.stall) and \
       not [t for t in self.tasks if t.state == RUNNABLE and t is not cur]:
      self.dormant = True        # nobody to switch to: kept for when there is
      TR.focusMod = 0
      self.preempt_at = None
      self._stops()
      return
    self.preempts_left -= 1
    self._arm()
    self.note('preempt', '%s:%d' % (name, line))
    self.switch('line')

  def on_focus(self, name, line):
    """called from the tracer at every line of the functions this run looks at closely"""
    if self.ending or self.current is None:
      return
    head = self._peek()
    if not (head is not None and head[0] <= self.now + self.stall) and \
       not [t for t in self.tasks if t.state == RUNNABLE and t is not self.current]:
      if self.preempt_at is None:
        self.dormant = True
        TR.focusMod = 0
      return
    self.focus_draws -= 1
    if self.focus_draws <= 0:
      TR.focusMod = 0
    if self.flip(self.focus[2], 'focus'):
      self.note('focus', '%s:%d' % (name, line))
      self.switch('focus')

  def _fair(self, cur):
    """now and then everyone gets a turn and time moves, so that code waiting in
    a loop for someone else is only stuck when nobody can help it"""
    self.mix('fair')
    self.note('fair')
    run = [t for t in self.tasks if t.state == RUNNABLE and t is not cur]
    if not run and self._peek() is not None:
      self._fire_next()
    if run:
      later = [t for t in run if t.id > self.fair_last]
      t = (later or run)[0]
      self.fair_last = t.id
      self._give(cur, t)

  def _killed(self, cur):
    if cur is None:              # a thread of no task (the run is over)
      raise SimKill()
    cur.kills += 1
    if cur.kills > 200:
      # refuses to die: park it for good
      self.kill_sem.release()
      JSemaphore(0).acquire()
    raise SimKill()

  def op(self, label):
    """a non-blocking primitive: a possible switch point"""
    cur = self.current
    if self.ending:
      self._killed(cur)
    TR.steps += 1
    if TR.steps >= self.max_steps:
      self.stop('step-limit')
      self._schedule(cur)
    self.mix(label)
    if self.p_switch and self.draw(lambda: int(self.rng.nextInt(256) < self.p_switch), 2, 'sw'):
      self.switch(label)

  def switch(self, label=''):
    """let the scheduler pick who continues (current task stays runnable)"""
    self._schedule(self.current)
    
  def block(self, waiter, why):
    """park the current task until waiter fires"""
    cur = self.current
    if self.ending:
      self._killed(cur)
    if waiter.fired:
      return waiter.result
    cur.state = BLOCKED
    cur.why = why
    self.mix(why)
    self._schedule(cur)
    if self.ending:
      self._killed(cur)
    return waiter.result

  def wait(self, waitlist, why, timeout=None):
    w = Waiter(self.current)
    waitlist.append(w)
    ev = None
    if timeout is not None:
      ev = self.after(max(0.0, timeout), lambda: w.fire('timeout'), 'timeout ' + why)
    r = self.block(w, why)
    if ev is not None:
      ev.cancelled = True
    if w in waitlist:
      waitlist.remove(w)
    return r

  def sleep(self, d):
    w = Waiter(self.current)
    self.after(max(0.0, d), lambda: w.fire('slept'), 'wake')
    self.block(w, 'sleep')

  def join(self, task, timeout=None):
    if task.state != DONE:
      self.wait(task.done_waiters, 'join ' + task.name, timeout)
    return task.state == DONE

  def _next(self, cur):
    """choose what happens next; returns the task to run or None (world over)"""
    while True:
      if self.outcome is not None:
        return None
      run = [t for t in self.tasks if t.state == RUNNABLE]
      head = self._peek()
      if not run:
        if head is None:
          self.outcome = 'quiescent'
          return None
        self._fire_next()
        continue
      if cur is not None and cur.state == RUNNABLE:
        run.remove(cur)
        run.insert(0, cur)          # simplest choice: no switch
      n = len(run)
      if head is not None and head[0] <= self.now + self.stall:
        k = self.choose(n + 1, 'next')
      else:
        k = self.choose(n, 'next')
      if k == n:
        self._fire_next()
        continue
      return run[k]

  def _schedule(self, cur):
    nxt = self._next(cur)
    if nxt is None:
      self._end()
      cur.sem.acquire()            # resumed only to be killed
      self._killed(cur)
    if nxt is not cur:
      self._give(cur, nxt)

  def _give(self, cur, nxt):
    self.switches += 1
    self.current = nxt
    self.mix('->')
    nxt.sem.release()
    cur.sem.acquire()
    if self.ending:
      self._killed(cur)

  def _end(self):
    self.current = None
    self.ending = True
    self.final_steps = TR.steps
    TR.nextStop = TR.steps + 3000   # catches tasks that spin when killed
    self.done_sem.release()

  def stop(self, why):
    if self.outcome is None:
      self.outcome = why

  def task_done(self, task):
    """runs on the finishing task's carrier"""
    carrier = task.carrier
    if self.ending:
      POOL.put(carrier)
      self.kill_sem.release()
      return
    self.note('end', task.name)
    for w in task.done_waiters:
      w.fire('done')
    task.done_waiters = []
    try:
      nxt = self._next(None)
    except:
      self.errors.append(traceback.format_exc())
      nxt = None
    POOL.put(carrier)
    if nxt is None:
      self._end()
    else:
      self.switches += 1
      self.current = nxt
      nxt.sem.release()

  # ---- driver -----------------------------------------------------------
  def run(self, main, *args):
    """run main as the first task until everything is quiet; returns outcome"""
    global WORLD
    WORLD = self
    TR.on = True
    t = self.spawn(main, args, name='main')
    self.current = t
    t.sem.release()
    if not self.done_sem.tryAcquire(100, TimeUnit.SECONDS):
      self.errors.append('kernel: run did not end (real-time guard)')
      self.outcome = 'hung'
      self.ending = True
      TR.on = False
      WORLD = None
      return self.outcome
    self.left = [x for x in self.tasks if x.state != DONE]
    self.left_info = [(x.name, x.state, x.why) for x in self.left]
    for x in self.left:
      self.current = x
      x.sem.release()
      if not self.kill_sem.tryAcquire(20, TimeUnit.SECONDS):
        self.errors.append('kernel: task %s cannot be stopped' % x.name)
    WORLD = None
    TR.on = False
    for f in self.cleanup:
      f()
    return self.outcome


def hash_str(s):
  h = 0
  for c in s:
    h = (h * 131 + ord(c)) & 0xffffffff
  return h

_hcache = {}
_hash_str = hash_str
def hash_str(s):
  h = _hcache.get(s)
  if h is None:
    h = _hash_str(s)
    if len(_hcache) < 20000:
      _hcache[s] = h
  return h
