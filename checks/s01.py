# -*- coding: us-ascii -*-
"""S01: every server line reaches every subscriber exactly once, in order, intact."""
import errno
import sess
from sess import PROMPT

KINDS = ['FIBS_PreLogin', 'FIBS_MOTD', 'FIBS_Unknown', 'CLIP_MOTD_BEGIN', 'FIBS_LoginPrompt', 'FIBS_Empty', 'FIBS_Board']


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    self.n = 1 + w.weighted([6, 3, 1], 'sessions')
    self.plans = []
    for i in range(self.n):
      m = w.skewed(14, 'items')
      if w.flip(0.03, 'plenty'):
        m = w.rand_int(30, 80, 'items')
      items = []
      for j in range(m):
        if w.flip(0.15, 'prompt'):
          items.append(('prompt',))
        else:
          items.append(('line', sess.wild_line(w)))
      end = w.pick(['eof', 'eof', 'open', 'reset'], 'end')
      tail = ''
      if w.flip(0.3, 'tail'):
        tail = sess.wild_line(w)
        if tail and end != 'open':
          items.append(('tail', tail))
      peer = sess.Peer(w, items, sess.gaps(w, len(items)), end, w.pick([0.0, 0.03]))
      self.net.listen(('fibs', 4321 + i), peer)
      subs = w.weighted([4, 3, 2], 'subs')
      order = w.choose(3, 'order')
      self.plans.append((items, end, subs, order, peer))
    self.reorder = w.choose(2, 'register-late')

  def main(self):
    S = self.env.load('bglib.protocol.session')
    Catch = sess.make_catchall(S, self.w, self.log)
    Subset = sess.make_subset(S, self.w, self.log, KINDS[:3 + self.w.choose(5, 'kinds')])
    self.kinds = [k for k in KINDS if k in Subset.__dict__]
    self.sessions = []
    for i, (items, end, subs, order, peer) in enumerate(self.plans):
      s = S.Session()
      L = [Catch((i, 0, 'all'))]
      for k in range(subs):
        L.insert((order + k) % (len(L) + 1), (Subset, Catch)[(order + k) % 2]((i, k + 1, ('some', 'all')[(order + k) % 2])))
      if self.reorder:
        s.register(*L)
      else:
        for x in L:
          s.register(x)
      self.sessions.append((s, L))
    for i, (s, L) in enumerate(self.sessions):
      self.open(s, ('fibs', 4321 + i))

  def judge(self):
    self.check_logged()
    for i, (items, end, subs, order, peer) in enumerate(self.plans):
      want = sess.texts(items)
      ref = None
      for sub in self.sessions[i][1]:
        got = self.of(sub.tag)
        msgs = [g for g in got if g[0] not in ('EOFError', 'socket_error')]
        have = [g for n, g in msgs]
        if sub.tag[2] == 'all':
          if end == 'reset':
            ok = have == want[:len(have)]
            if not ok and have and len(have) <= len(want):
              # the line being received when the connection broke may come cut
              ok = have[:-1] == want[:len(have) - 1] and False
            self.require(ok, 'lines-differ', 'session %d %s got %r, want a prefix of %r' % (i, sub, have, want))
          else:
            self.require(have == want, 'lines-differ', 'session %d %r got %r, want %r' % (i, sub.tag, have, want))
          ends = [n for n, g in got if n in ('EOFError', 'socket_error')]
          if end == 'eof' and want:
            self.require(ends == ['EOFError'], 'end-not-told', repr(ends))
          if ref is None:
            ref = msgs
          else:
            self.require(ref == msgs, 'subscribers-disagree', '%r / %r' % (ref, msgs))
      for sub in self.sessions[i][1]:
        if sub.tag[2] == 'some':
          msgs = [g for g in self.of(sub.tag)]
          w = [g for g in ref if g[0] in self.kinds]
          self.require(msgs == w, 'subset-differs', 'session %d %r got %r, want %r' % (i, sub.tag, msgs, w))

  def sample(self):
    return dict(streams=[(sess.texts(p[0])[:6], p[1]) for p in self.plans], delivered=len(self.calls),
                seg=self.net.seg)
