# -*- coding: us-ascii -*-
"""S07: connection loss is reported once, after received lines; failed opens are clean."""
import errno
import sess
import simmods
from simmods import serr, SockGai, SockError

ERRS = [errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.ENETUNREACH, errno.EINTR, 'gai', 'timeout']
RESETS = [errno.ECONNRESET, errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.EPIPE]


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    self.n = w.skewed(8, 'lines')
    self.lines = ['line %d' % i for i in range(self.n)]
    items = [('line', l) for l in self.lines]
    self.tail = ''
    self.end = w.pick(['eof', 'reset', 'halfline-eof', 'open'], 'end')
    if self.end == 'halfline-eof':
      self.tail = 'half a line'
      items.append(('tail', self.tail))
    self.errno = w.pick(RESETS, 'errno')
    self.peer = sess.Peer(w, items, sess.gaps(w, len(items)), self.end == 'halfline-eof' and 'eof' or self.end,
                          w.pick([0.0, 0.02, 0.5], 'end_gap'), self.errno, w.flip(0.5, 'drop'))
    self.net.listen(('fibs', 4321), self.peer)
    self.nsubs = w.rand_int(1, 3, 'subs')
    self.fails = [w.pick(ERRS, 'connect-error') for i in range(w.weighted([3, 2, 1, 1], 'failing opens'))]
    self.sender = w.flip(0.3, 'sender')
    self.late = w.choose(3, 'late register')
    self.notes = []

  def main(self):
    w = self.w
    S = self.env.load('bglib.protocol.session')
    Catch = sess.make_catchall(S, w, self.log)
    self.Err = self.env.sim['socket'].error
    s = self.s = S.Session()
    subs = [Catch(i) for i in range(self.nsubs)]
    if self.late != 1:
      s.register(*subs)
    for f in self.fails:
      e = f == 'gai' and SockGai(-2, 'Name or service not known') or f == 'timeout' and simmods.SockTimeout('timed out') or serr(f)
      self.net.connect_faults.append(e)
      before = len(w.tasks)
      try:
        s.open('fibs', 4321)
        self.notes.append('open returned although connecting failed with %r' % (e,))
      except SockError, got:
        if got is not e and (type(got) is not type(e) or got.args != e.args):
          self.notes.append('open raised %r, not %r' % (got, e))
      if s.is_active():
        self.notes.append('active after failed open')
      if len(w.tasks) != before:
        self.notes.append('a reader was started by a failed open')
      w.probe('failed-open')
    if self.late == 1:
      s.register(*subs)
    self.open(s, ('fibs', 4321))
    w.rec('opened')
    if self.sender:
      for i in range(4):
        try:
          s.send_line('hello %d' % i)
        except (SockError, AttributeError, EOFError):
          break
        w.sleep(0.01)

  def judge(self):
    w = self.w
    bad = [x for x in w.logged if x[0] not in ('SystemExit',)]
    self.require(not bad, 'reader-failed', repr(bad))
    self.require(not self.notes, 'failed-open', '; '.join(self.notes))
    left = [x for x in w.left_info]
    if self.end != 'open':
      self.require(not left, 'reader-alive', repr(left))
    want = list(self.lines)
    if self.tail:
      want.append(self.tail)
    for i in range(self.nsubs):
      got = self.of(i)
      names = [n for n, t in got]
      ends = [k for k, n in enumerate(names) if n in ('EOFError', 'socket_error')]
      msgs = [t for n, t in got if n not in ('EOFError', 'socket_error')]
      if self.end == 'open':
        self.require(not ends, 'false-alarm-of-loss', repr(got))
        self.require(msgs == want, 'lines-differ', repr(msgs))
        continue
      self.require(len(ends) == 1, 'told-%d-times' % len(ends), 'subscriber %d got %r' % (i, got))
      self.require(ends[0] == len(got) - 1, 'delivered-after-loss', repr(got))
      name, e = got[-1]
      if self.end == 'reset':
        self.require(name == 'socket_error', 'wrong-loss', '%r after a reset' % name)
        self.require(getattr(e, 'args', (None,))[0] == self.errno, 'wrong-error', '%r, want errno %d' % (e, self.errno))
        self.require(msgs == want[:len(msgs)], 'lines-differ', repr(msgs))
        if not self.w.probes.get('reset-dropped-bytes') and not self.peer.drop:
          pass
      else:
        self.require(name == 'EOFError', 'wrong-loss', '%r at the end of the stream' % name)
        self.require(msgs == want, 'lines-before-loss-missing', '%r, want %r' % (msgs, want))

  def nontrivial(self):
    return len(self.calls) > 0 and (self.end != 'open' or bool(self.fails))

  def sample(self):
    return dict(lines=self.n, end=self.end, failing_opens=[str(f) for f in self.fails], callbacks=[c[1] for c in self.calls])
