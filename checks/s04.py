# -*- coding: us-ascii -*-
"""S04: lines sent by several threads reach the server whole and in order."""
import errno
import sess
import simmods
from sess import IAC, CRLF
from kernel import DONE


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    net = self.net
    net.short_send = w.pick([0, 0, 1, 4, 20], 'short_send')
    net.sndbuf = w.pick([0, 0, 8, 64], 'sndbuf')
    self.nthreads = 1 + w.weighted([2, 4, 3, 1], 'threads')
    self.plans = []
    big = net.short_send in (0, 20) and not net.sndbuf
    for i in range(self.nthreads):
      plan = []
      for j in range(w.flip(0.02, 'plenty') and 40 or w.rand_int(1, 5, 'lines')):
        s = 't%d.%d ' % (i, j)
        k = w.weighted([5, 2, 2, 1, big], 'payload')
        if k == 1:
          s += sess.text(w, w.skewed(10, 'len'), 'ab' + IAC + IAC)
        elif k == 2:
          s += sess.text(w, w.skewed(12, 'len'), sess.ODD).replace('\n', ';')
        elif k == 3:
          s += 'x' * w.skewed(120, 'long')
        elif k == 4:
          s += 'y' * w.pick([1022, 1500, 3000, 5000, 9000], 'big')
        plan.append((s, w.choose(3, 'pause')))
      self.plans.append(plan)
    n = w.skewed(6, 'server-lines')
    items = [('line', 'line %d' % i) for i in range(n)]
    self.fate = w.pick(['live', 'live', 'reset', 'close'], 'fate')
    self.when = w.pick([0.005, 0.012, 0.02, 0.04, 0.1], 'when')
    self.peer = sess.Peer(w, items, sess.gaps(w, n), 'open')
    self.net.listen(('fibs', 4321), self.peer)
    self.reply = w.choose(2, 'reply-in-callback')
    self.faulty = w.flip(0.25, 'transient') and w.rand_int(1, 6, 'nth') or 0
    self.sends = []            # [line, inv, ret, exc]
    self.tries = 0
    self.stray = None

  def send(self, line):
    r = [line, self.w.rec('send', line=line), None, None]
    self.sends.append(r)
    try:
      self.s.send_line(line)
      r[2] = self.w.rec('sent', line=line)
    except simmods.SockError, e:
      r[3] = e
      self.w.rec('send-failed', line=line, err=repr(e))
    except (AttributeError, EOFError), e:       # what using a closed connection raises
      r[3] = e
      self.w.rec('send-failed', line=line, err=repr(e))
      if self.fate != 'close':
        self.stray = repr(e)

  def hook(self, sub, name, got):
    if self.reply and name not in ('EOFError', 'socket_error'):
      self.w.probe('send-from-callback')
      self.send('cb %s' % got)

  def sender(self, i):
    for line, p in self.plans[i]:
      if p:
        self.w.sleep(0.004 * p)
      self.send(line)

  def main(self):
    w = self.w
    S = self.env.load('bglib.protocol.session')
    Catch = sess.make_catchall(S, w, self.log, self.hook)
    s = self.s = S.Session()
    s.register(Catch(0))
    self.open(s, ('fibs', 4321))
    ep = self.peer.ep.peer
    if self.faulty:
      fresh = [True]
      def transient(ep, n):
        # refuses a write once, at the beginning of a line or of a sendall() (nothing of it taken)
        self.tries += 1
        if self.tries >= self.faulty and (self.peer.ep is not None) and at_line_start():
          ep.send_fault = None
          w.fault('send-ENOBUFS')
          self.refused = True
          return errno.ENOBUFS
        return None
      def at_line_start():
        return ep.sent == '' or ep.sent.endswith(CRLF) or ep.call_starts
      ep.send_fault = transient
    self.ts = [w.spawn(self.sender, (i,), name='sender%d' % i) for i in range(self.nthreads)]
    if self.fate == 'reset':
      w.after(self.when, lambda: self.peer.ep.push_reset(), 'server reset')
    elif self.fate == 'close':
      w.sleep(self.when)
      self.close_inv = w.rec('close')
      s.close()
      w.rec('closed')

  def judge(self):
    self.check_logged()
    stuck = [x for x in self.w.left_info if x[0].startswith('sender') or x[0] == 'main']
    self.require(not stuck, 'stuck', repr(stuck))
    self.require(self.stray is None, 'wrong-exception', self.stray)
    raw = self.peer.got
    parts = raw.split(CRLF)
    tail = parts.pop()
    by = dict((s[0].replace(IAC, IAC + IAC), s) for s in self.sends)
    seen = []
    for p in parts:
      self.require(p in by, 'not-a-sent-line', '%r is no whole sent line; got %r, sent %r' % (p, raw, [s[0] for s in self.sends]))
      self.require(by[p] not in seen, 'line-repeated', repr(p))
      seen.append(by[p])
    if tail:
      self.require(self.fate == 'reset', 'line-cut', 'unterminated %r without a connection failure' % tail)
      cand = [s for s in self.sends if (s[0].replace(IAC, IAC + IAC) + CRLF).startswith(tail) and s not in seen]
      self.require(cand, 'not-a-sent-line', 'unterminated %r is no part of a sent line' % tail)
      self.w.probe('cut-mid-line')
    pos = dict((s[0], i) for i, s in enumerate(seen))
    for b in seen:
      for a in self.sends:
        if a[2] is not None and a[2] < b[1]:
          self.require(a[0] in pos and pos[a[0]] < pos[b[0]], 'order',
                       '%r was sent before %r but arrived %s' % (a[0], b[0], a[0] in pos and 'later' or 'never'))
    for s in self.sends:
      if s[2] is not None:
        if self.fate != 'reset':
          self.require(s[0] in pos, 'line-lost', '%r was sent (returned) but never arrived' % s[0])
      elif s[3] is not None:
        if self.fate == 'live':
          self.require(getattr(s[3], 'errno', None) == errno.ENOBUFS or s[3].args[0] == errno.ENOBUFS, 'wrong-exception', repr(s[3]))
          self.require(s[0] not in pos, 'failed-line-arrived', repr(s[0]))
    fails = [s for s in self.sends if s[3] is not None]
    if self.fate == 'live':
      # a refused write is told to exactly its caller
      self.require(len(fails) == self.w.faults.get('send-ENOBUFS', 0), 'failure-not-raised',
                   '%d refused, %d callers told' % (self.w.faults.get('send-ENOBUFS', 0), len(fails)))
      self.require(self.w.outcome == 'quiescent' and len(self.sends) >= sum(map(len, self.plans)), 'incomplete', '')

  def nontrivial(self):
    return len([s for s in self.sends if s[2]]) > 1 and self.w.switches > 2

  def sample(self):
    return dict(sent=[s[0] for s in self.sends][:8], received=self.peer.got[:200], fate=self.fate,
                short_send=self.net.short_send)
