# -*- coding: us-ascii -*-
"""S05: after close() returns nothing more is delivered and the reader ends."""
import sess
from kernel import DONE


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    net = self.net
    net.close_wakes = w.pick(['error', 'eof', 'no'], 'close_wakes')
    self.n = w.rand_int(1, 12, 'lines')
    self.lines = ['line %d' % i for i in range(self.n)]
    items = [('line', l) for l in self.lines]
    self.peer = sess.Peer(w, items, sess.gaps(w, self.n), w.pick(['open', 'open', 'eof', 'reset'], 'end'),
                          w.pick([0.0, 0.03, 0.2], 'end_gap'))
    self.peer.hold_eof = w.flip(0.3, 'hold')
    net.listen(('fibs', 4321), self.peer)
    self.nsubs = w.rand_int(1, 3, 'subs')
    self.closers = []
    for i in range(w.weighted([2, 4, 2, 1], 'closers')):
      self.closers.append([(w.choose(8, 'wait'), w.choose(3, 'style')) for k in range(1 + w.weighted([4, 1], 'twice'))])
    self.incb = w.flip(0.4, 'close-in-callback') and (w.choose(self.nsubs, 'sub'), w.choose(self.n, 'nth')) or None
    if not self.closers and not self.incb:
      self.closers = [[(2, 0)]]
    self.cbtime = w.pick([0.0, 0.0, 0.004], 'cbtime')
    self.sender = w.flip(0.3, 'sender')
    self.other = w.flip(0.3, 'other session')
    if self.other:
      self.net.listen(('fibs', 4322), sess.Peer(w, items, sess.gaps(w, self.n), 'eof'))
    self.closes = []          # (inv, ret, task, in callback, message index)
    self.cbs = []             # [text, entry, exit, task, sub]
    self.bad_active = None
    self.counts = {}

  def close(self, where, msg=None):
    w = self.w
    c = [w.rec('close', where=where), None, w.current.id, where, msg]
    self.closes.append(c)
    self.s.close()
    c[1] = w.rec('closed', where=where)
    a = self.s.is_active()
    if a:
      self.bad_active = 'after close in %s is_active() is %r' % (where, a)

  def hook(self, sub, name, got):
    w = self.w
    rec = [str(got), self.calls[-1][3], None, w.current.id, sub.tag]
    self.cbs.append(rec)
    n = self.counts[sub.tag] = self.counts.get(sub.tag, 0) + 1
    if self.cbtime:
      w.sleep(self.cbtime)
    if self.incb == (sub.tag, n - 1):
      w.probe('close-in-callback')
      self.close('callback', str(got))
    rec[2] = w.rec('cb-out', sub=sub.tag)

  def closer(self, plan):
    for wait, style in plan:
      if wait:
        self.w.sleep(0.004 * wait)
      self.close('thread')

  def send(self):
    for i in range(3):
      try:
        self.s.send_line('x%d' % i)
      except (IOError, AttributeError, EOFError):
        pass
      self.w.sleep(0.005)

  def wait_terminated(self):
    self.s.terminated.wait()
    self.w.rec('terminated')

  def main(self):
    w = self.w
    S = self.env.load('bglib.protocol.session')
    Catch = sess.make_catchall(S, w, self.log, self.hook)
    s = self.s = S.Session()
    s.register(*[Catch(i) for i in range(self.nsubs)])
    if self.other:
      Plain = sess.make_catchall(S, w, self.log)
      self.s2 = S.Session()
      self.s2.register(Plain('other'))
      self.open(self.s2, ('fibs', 4322))
    self.open(s, ('fibs', 4321))
    self.ts = [w.spawn(self.closer, (p,), name='closer%d' % i) for i, p in enumerate(self.closers)]
    if self.sender:
      self.ts.append(w.spawn(self.send, (), name='sender'))
    self.ts.append(w.spawn(self.wait_terminated, name='waiter'))

  def judge(self):
    w = self.w
    self.check_logged()
    left = [x[0] for x in w.left_info]
    self.require(not [x for x in left if x[:6] in ('closer', 'sender', 'main')], 'stuck', repr(w.left_info))
    self.require(self.bad_active is None, 'active-after-close', self.bad_active)
    for c in self.closes:
      if c[1] is None:
        continue
      for cb in self.cbs:
        if c[3] == 'thread':
          self.require(cb[1] < c[1], 'callback-after-close', '%r started after close returned at %d' % (cb, c[1]))
          self.require(cb[2] is not None and cb[2] < c[1], 'callback-running-at-close', '%r still running when close returned at %d' % (cb, c[1]))
        else:
          self.require(cb[1] < c[1] or cb[0] == c[4], 'callback-after-close', '%r delivered after close in callback of %r' % (cb, c[4]))
    done = [c for c in self.closes if c[1] is not None]
    if done and (self.net.close_wakes != 'no' or not self.peer.hold_eof or self.peer.end == 'eof'):
      self.require('waiter' not in left, 'not-terminated', 'terminated never set: %r' % (w.left_info,))
      self.require(not left, 'reader-alive', repr(w.left_info))
      w.probe('terminated')
    # what was delivered before is still right
    for i in range(self.nsubs):
      got = [t for n, t in self.of(i) if n not in ('EOFError', 'socket_error')]
      self.require(got == self.lines[:len(got)], 'lines-differ', '%r' % (got,))
    if self.other:
      got = [t for n, t in self.of('other') if n != 'EOFError']
      self.require(got == self.lines, 'other-session-disturbed', '%r' % (got,))

  def nontrivial(self):
    return len(self.cbs) > 0 and len(self.closes) > 0

  def sample(self):
    return dict(callbacks=[(c[0], c[1], c[2], str(c[4])) for c in self.cbs][:10], closes=[c[:2] + [c[3]] for c in self.closes],
                wakes=self.net.close_wakes, end=self.peer.end)
