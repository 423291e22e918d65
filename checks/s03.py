# -*- coding: us-ascii -*-
"""S03: subscribing and unsubscribing take effect exactly at their call."""
import sess
from kernel import DONE


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    self.n = w.rand_int(2, 14, 'lines')
    # unique texts, in whatever phase: '3' and '4' move the session along
    self.lines = ['line %d' % i for i in range(self.n)]
    if w.flip(0.4, 'phases'):
      self.lines[self.n // 3] = '3'
      self.lines[self.n // 2 + 1 if self.n > 2 else 1] = '4'
    self.lines = [l for i, l in enumerate(self.lines) if l not in self.lines[:i]]
    self.n = len(self.lines)
    items = [('line', l) for l in self.lines]
    self.end = w.pick(['eof', 'open'], 'end')
    self.peer = sess.Peer(w, items, sess.gaps(w, self.n), self.end)
    self.net.listen(('fibs', 4321), self.peer)
    self.nstable = w.rand_int(1, 2, 'stable')
    self.nthreads = w.weighted([2, 4, 2, 1], 'threads')
    self.plans = []
    for i in range(self.nthreads):
      ops = [w.choose(3, 'group') for j in range(w.rand_int(1, 4, 'ops'))]
      pauses = [w.choose(3, 'pause') for j in range(2 * len(ops) + 1)]
      self.plans.append((ops, pauses))
    # scripted changes made from inside callbacks: (actor, nth callback, target)
    self.nscripted = w.weighted([3, 3, 2, 2], 'scripted')
    self.scripts = {}
    for t in range(self.nscripted):
      actor = w.choose(self.nstable + self.nscripted, 'actor')
      toggles = sorted(set([w.choose(self.n, 'when') for k in range(w.rand_int(1, 3, 'toggles'))]))
      self.scripts[t] = (actor, toggles, w.flip(0.6, 'initially'))
    self.early = w.choose(2, 'register-before-open')
    self.cbtime = w.pick([0.0, 0.0, 0.005], 'cbtime')
    self.periods = {}          # tag -> [[reg_inv, reg_ret, unreg_inv, unreg_ret, unreg_task]]
    self.cbs = {}              # tag -> [(text, entry, exit, task)]
    self.member = {}
    self.counts = {}

  # -- harness operations
  def reg(self, *subs):
    ps = []
    for s in subs:
      p = [self.w.rec('register', sub=s.tag), None, None, None, None]
      self.periods.setdefault(s.tag, []).append(p)
      ps.append(p)
    self.session.register(*subs)
    seq = self.w.rec('registered', sub=[s.tag for s in subs])
    for p in ps:
      p[1] = seq

  def unreg(self, *subs):
    seq = self.w.rec('unregister', sub=[s.tag for s in subs])
    for s in subs:
      p = self.periods[s.tag][-1]
      p[2] = seq
    self.session.unregister(*subs)
    for s in subs:
      p = self.periods[s.tag][-1]
      p[3] = self.w.rec('unregistered', sub=s.tag)
      p[4] = self.w.current.id

  def hook(self, sub, name, got):
    w = self.w
    entry = self.calls[-1][3]
    rec = [str(got), entry, None, w.current.id]
    self.cbs.setdefault(sub.tag, []).append(rec)
    if self.cbtime:
      w.sleep(self.cbtime)
    n = self.counts[sub.tag] = self.counts.get(sub.tag, 0) + 1
    for t, (actor, toggles, initially) in sorted(self.scripts.items()):
      if actor == sub.tag and (n - 1) in toggles:
        x = self.scripted[t]
        if self.member.get(t):
          self.member[t] = False
          w.probe('self-unregister' if x is sub else 'callback-unregister')
          self.unreg(x)
        else:
          self.member[t] = True
          w.probe('callback-register')
          self.reg(x)
    rec[2] = w.rec('cb-out', sub=sub.tag)

  def driver(self, i):
    ops, pauses = self.plans[i]
    w = self.w
    subs = [self.Catch('d%d.%d' % (i, k)) for k in range(2)]
    for j, g in enumerate(ops):
      self.pause(pauses[2 * j])
      L = [subs[:1], subs[1:], subs][g]
      self.reg(*L)
      self.pause(pauses[2 * j + 1])
      self.unreg(*L)

  def pause(self, k):
    if k == 1:
      self.w.sleep(0.005)
    elif k == 2:
      self.w.sleep(0.013)

  def main(self):
    S = self.env.load('bglib.protocol.session')
    self.Catch = sess.make_catchall(S, self.w, self.log, self.hook)
    self.session = S.Session()
    stable = [self.Catch(i) for i in range(self.nstable)]
    self.scripted = dict((t, self.Catch(self.nstable + t)) for t in range(self.nscripted))
    order = stable[:1] + [self.scripted[t] for t in range(self.nscripted) if self.scripts[t][2]] + stable[1:]
    for x in order:
      self.reg(x)
    for t in range(self.nscripted):
      self.member[t] = self.scripts[t][2]
    if self.early:
      ts = [self.w.spawn(self.driver, (i,), name='driver%d' % i) for i in range(self.nthreads)]
    self.open(self.session, ('fibs', 4321))
    if not self.early:
      ts = [self.w.spawn(self.driver, (i,), name='driver%d' % i) for i in range(self.nthreads)]

  def judge(self):
    w = self.w
    self.check_logged()
    stuck = [x for x in w.left_info if x[0].startswith('driver') or x[0] == 'main']
    self.require(not stuck, 'stuck', repr(stuck))
    want = list(self.lines)
    if self.end == 'eof':
      want.append('telnet connection closed')
    for i in range(self.nstable):
      got = [t for n, t in self.of(i)]
      self.require([str(t) for t in got] == want, 'stable-subscriber-differs', '%r got %r want %r' % (i, got, want))
    index = dict((t, k) for k, t in enumerate(want))
    first, last = {}, {}
    for tag, cs in self.cbs.items():
      for text, a, b, task in cs:
        k = index.get(text)
        self.require(k is not None, 'unknown-message', text)
        first[k] = min(first.get(k, a), a)
        last[k] = max(last.get(k, 0), b or 1 << 60)
    for tag, ps in sorted(self.periods.items()):
      cs = self.cbs.get(tag, [])
      for p in ps:
        reg_inv, reg_ret, un_inv, un_ret, un_task = p
        end = un_ret or 1 << 60
        mine = [c for c in cs if reg_inv < c[1] < end]
        ks = [index[c[0]] for c in mine]
        self.require(len(set(ks)) == len(ks), 'message-repeated', '%r %r' % (tag, [c[0] for c in mine]))
        self.require(ks == sorted(ks), 'order', '%r %r' % (tag, ks))
        for k in range(len(want)):
          started_after = k == 0 and self.never_before(reg_ret) or k > 0 and reg_ret < last[k - 1]
          ended_before = un_inv is None or (k + 1 in first and first[k + 1] < un_inv)
          if started_after and ended_before:
            w.probe('must-receive')
            self.require(k in ks, 'message-missed', '%r registered %s..%s missed %r, got %r' % (tag, reg_ret, un_inv, want[k], ks))
        if un_ret is not None:
          for c in mine:
            if c[3] != un_task:
              self.require(c[2] is not None and c[2] < un_ret, 'callback-outlives-unregister', '%r %r' % (tag, c))
      for c in cs:
        inside = [p for p in ps if p[0] < c[1] < (p[3] or 1 << 60)]
        self.require(inside, 'callback-outside-registration', '%r %r periods %r' % (tag, c, ps))

  def never_before(self, reg_ret):
    opened = [h['seq'] for h in self.w.history if h['kind'] == 'opened']
    return False if not opened else self.first_possible(reg_ret)

  def first_possible(self, reg_ret):
    # the first line cannot be dispatched before open() was called
    return reg_ret < self.open_inv

  def open(self, session, addr):
    self.open_inv = self.w.rec('open')
    sess.Base.open(self, session, addr)

  def nontrivial(self):
    return len(self.calls) > 2 and len([p for ps in self.periods.values() for p in ps if p[3]]) > 0

  def sample(self):
    return dict(lines=self.lines, periods=dict((str(k), [p[:4] for p in v]) for k, v in self.periods.items()),
                callbacks=dict((str(k), [(c[0], c[1], c[2]) for c in v][:6]) for k, v in self.cbs.items()))
