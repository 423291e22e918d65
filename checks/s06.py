# -*- coding: us-ascii -*-
"""S06: critical sections exclude each other and are always released."""
import sess
import simmods
from kernel import DONE


class Boom(Exception):
  pass


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    self.mode = w.weighted([3, 4], 'mode')       # 0: decorator alone, 1: session
    self.nthreads = w.rand_int(2, 4, 'threads')
    if self.mode == 0:
      self.nlocks = w.rand_int(1, 2, 'locks')
      self.kind = w.choose(2, 'condition-or-rlock')
      self.plans = [[(w.choose(self.nlocks), w.weighted([5, 2, 2, 1], 'end'), w.choose(3, 'depth'), w.choose(2, 'pause'))
                     for j in range(w.rand_int(1, 5, 'ops'))] for i in range(self.nthreads)]
    else:
      self.n = w.rand_int(1, 8, 'lines')
      items = [('line', 'line %d' % i) for i in range(self.n)]
      self.end = w.pick(['eof', 'open', 'reset'], 'end')
      self.peer = sess.Peer(w, items, sess.gaps(w, self.n), self.end, 0.02)
      self.net.listen(('fibs', 4321), self.peer)
      self.net.short_send = w.pick([0, 2], 'short_send')
      self.plans = [[(w.choose(5, 'op'), w.choose(3, 'pause')) for j in range(w.rand_int(1, 5, 'ops'))]
                    for i in range(self.nthreads)]
      self.fail = w.flip(0.4, 'callback-fails') and w.choose(self.n, 'fails-at') or None
      self.how = w.choose(2, 'how')
      self.close_at = w.flip(0.2, 'close') and (w.choose(self.nthreads, 'who'), w.choose(3, 'when')) or None
    self.inside = {}           # lock -> [task ids]
    self.overlap = None
    self.wrong = None
    self.entered = 0
    self.sub_inside = []

  # -- a section of the harness, run under the library's decorator
  def enter(self, key, label):
    w = self.w
    me = w.current.id
    L = self.inside.setdefault(key, [])
    others = [x for x in L if x != me]
    if others:
      self.overlap = self.overlap or '%s: task %d entered while %r inside' % (label, me, others)
    L.append(me)
    self.entered += 1
    if len(L) > 1:
      w.probe('re-entered')
    w.rec('enter', key=str(key), label=label)

  def leave(self, key):
    w = self.w
    if self.inside[key] and self.inside[key][-1] == w.current.id:
      self.inside[key].pop()
    else:
      self.overlap = self.overlap or 'left %r in disorder: %r by %d' % (key, self.inside[key], w.current.id)
    w.rec('leave', key=str(key))

  def main(self):
    S = self.env.load('bglib.protocol.session')
    (self.decorator, self.session)[self.mode](S)

  # -- mode 0
  def decorator(self, S):
    case, w = self, self.w
    T = self.env.sim['threading']

    class Thing(S.Subscriber):
      locks = None
      def pick(self, k, *a, **kw):
        return self.locks[k]

      @S.synchronized_with(pick)
      def work(self, k, end, depth, mark, opt=None):
        case.enter(k, 'work')
        try:
          w.op('in')
          if depth:
            r = self.work(k, 0, depth - 1, mark + 1, opt=opt)
            if r != ('ret', k, mark + 1, opt):
              case.wrong = 'nested returned %r' % (r,)
          w.op('in2')
          if end == 1:
            raise Boom(mark)
          if end == 2:
            return None
          if end == 3:
            raise SystemExit()
          return ('ret', k, mark, opt)
        finally:
          case.leave(k)

      @S.synchronized_with(S.Subscriber.lock)
      def own(self, k):
        # the per-subscriber lock of the library itself, entered again
        case.enter('own', 'own')
        try:
          w.op('own')
          self.nop()
          w.op('own2')
          if k and self.own(k - 1) != k - 1:
            case.wrong = 'nested own'
          return k
        finally:
          case.leave('own')

    class Moving(object):
      # names its lock through state which the section itself changes
      def __init__(self, locks):
        self.locks, self.at = locks, 0
      def named(self, *a, **kw):
        return self.locks[self.at]

      @S.synchronized_with(named)
      def move(self, to, end):
        w.op('move')
        self.at = to
        w.probe('accessor-moved')
        w.op('moved')
        if end == 1:
          raise Boom(to)
        return to
    mk = self.kind and T.Condition or T.RLock
    t = Thing()
    moving = Moving([mk(), mk()])
    t.locks = [mk() for i in range(self.nlocks)]

    def run(i):
      for j, (k, end, depth, pause) in enumerate(self.plans[i]):
        if pause:
          w.sleep(0.001)
        mark = i * 100 + j * 10
        try:
          r = t.work(k, end, depth, mark, opt=(i, j))
          want = (('ret', k, mark, (i, j)), None, None, None)[end]
          if end == 1:
            self.wrong = 'exception lost, got %r' % (r,)
          elif r != want:
            self.wrong = 'returned %r, want %r' % (r, want)
        except Boom, e:
          w.probe('left-by-exception')
          if end != 1 or e.args != (mark,):
            self.wrong = 'unexpected %r' % (e,)
        except SystemExit:
          w.probe('left-by-exit')
          if end != 3:
            raise
        if t.own(k) != k:
          self.wrong = 'own(%d)' % k
        if depth == 2:
          try:
            if moving.move((i + j) % 2, end) != (i + j) % 2 or end == 1:
              self.wrong = 'move'
          except Boom:
            if end != 1:
              self.wrong = 'move raised'
    self.ts = [w.spawn(run, (i,), name='user%d' % i) for i in range(self.nthreads)]

  # -- mode 1
  def session(self, S):
    case, w = self, self.w

    def hook(sub, name, got):
      case.enter('cb', 'callback')
      try:
        w.op('cb1')
        if sub.tag == 1:
          case.s.is_active()              # re-enters the session's lock
        w.op('cb2')
        if case.fail is not None and sub.tag == 0 and str(got) == 'line %d' % case.fail:
          w.fault('callback-raises')
          raise (Boom, SystemExit)[case.how]()
      finally:
        case.leave('cb')
    Catch = sess.make_catchall(S, w, self.log, hook)
    s = self.s = S.Session()
    s.register(Catch(0), Catch(1))
    self.open(s, ('fibs', 4321))
    extra = {}

    def run(i):
      mine = Catch('x%d' % i)
      on = False
      for j, (op, pause) in enumerate(self.plans[i]):
        if pause:
          w.sleep(0.004 * pause)
        try:
          if op == 0:
            s.send_line('t%d.%d' % (i, j))
          elif op == 1:
            s.is_active()
          elif op == 2:
            on = not on
            (s.unregister, s.register)[on](mine)
          elif op == 3:
            mine.nop()
          elif self.close_at == (i, j):
            s.close()
        except (IOError, AttributeError, EOFError):
          w.probe('operation-failed')
    self.ts = [w.spawn(run, (i,), name='user%d' % i) for i in range(self.nthreads)]
    # after everything: the lock must still be available to a newcomer
    def last():
      for t in self.ts:
        w.join(t)
      w.sleep(1.0)
      s.is_active()
      w.rec('newcomer')
    w.spawn(last, name='newcomer')

  def judge(self):
    w = self.w
    self.require(self.overlap is None, 'overlap', self.overlap)
    self.require(self.wrong is None, 'result-changed', self.wrong)
    stuck = [x for x in w.left_info if x[0][:4] in ('user', 'newc', 'main')]
    self.require(not stuck, 'stuck', repr(stuck))

  def nontrivial(self):
    return self.entered > 1 and self.w.probes.get('lock-contended', 0) > 0

  def sample(self):
    return dict(mode=('decorator', 'session')[self.mode], threads=self.nthreads, plans=self.plans, entered=self.entered)
