# -*- coding: us-ascii -*-
"""S02: message kinds follow the login/MOTD/run phase of their own session."""
import sess
import fibsref
from kernel import Violation


def fit(s):
  return not (sess.CRLF in s or '\0' in s or '\x11' in s or (s.startswith(sess.PROMPT) and s != sess.PROMPT))


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.mode = w.choose(2, 'mode')
    sess.tune(w, self.net)
    n = 1 + w.weighted([3, 3, 2], 'streams')
    boards = w.pick([3, 30], 'boards')
    self.streams = [fibsref.stream(w, w.flip(0.05, 'plenty') and not self.mode and 100 or w.skewed(24, 'n'), fit, boards) for i in range(n)]
    self.got = [[] for i in range(n)]
    self.solo = None
    if self.mode == 1:
      for i, st in enumerate(self.streams):
        items = [s == sess.PROMPT and ('prompt',) or ('line', s) for s, k, p in st]
        self.net.listen(('fibs', 4321 + i), sess.Peer(w, items, sess.gaps(w, len(items))))

  def feed(self, i, fibs):
    m = fibs.CookieMonster()
    for s, k, p in self.streams[i]:
      c = m.make_cookie(s)
      self.w.rec('cookie', stream=i, msg=s, kind_=c)
      self.got[i].append((s, c))

  def alone(self):
    """every stream by itself, each with a module nobody else has used"""
    name = 'bglib.protocol.fibs'
    out = []
    for st in self.streams:
      fibs = self.env.load(name)
      m = fibs.CookieMonster()
      out.append([(s, m.make_cookie(s)) for s, k, p in st])
      del self.env.loaded[name]
    return out

  def main(self):
    if self.w.flip(0.5, 'alone-first'):
      self.solo = self.alone()
    if self.mode == 0:
      fibs = self.env.load('bglib.protocol.fibs')
      for i in range(1, len(self.streams)):
        self.w.spawn(self.feed, (i, fibs), name='stream%d' % i)
      self.feed(0, fibs)
    else:
      S = self.env.load('bglib.protocol.session')
      def log(sub, name, got):
        self.w.rec('cb', stream=sub.tag, name=name, got=str(got))
        if name != 'EOFError':
          self.got[sub.tag].append((got, name))
      Catch = sess.make_catchall(S, self.w, log)
      self.keep = []
      for i in range(len(self.streams)):
        s = S.Session()
        s.register(Catch(i))
        self.keep.append(s)
      for i, s in enumerate(self.keep):
        self.open(s, ('fibs', 4321 + i))

  def judge(self):
    self.check_logged()
    for i, st in enumerate(self.streams):
      got = self.got[i]
      self.require([g for g, k in got] == [s for s, k, p in st], 'messages-differ',
                   'stream %d: %r, want %r' % (i, got, [x[0] for x in st]))
      for (s, ks, p), (g, k) in zip(st, got):
        if len(ks) > 1:
          self.w.probe('several-kinds-match')
        self.require(k in ks, 'wrong-kind', 'stream %d: %r in %s announced as %s, its patterns: %s' % (i, s, p, k, ks))
        self.w.probe('in-' + p)
      if self.solo:
        self.w.probe('compared-with-alone')
        for a, b in zip(self.solo[i], got):
          self.require(a[1] == b[1], 'depends-on-another-session', 'stream %d: %r is %s, but %s when the same '
                       'messages come to the only session' % (i, str(b[0]), b[1], a[1]))

  def nontrivial(self):
    return len([1 for st in self.streams for x in st]) > 2

  def sample(self):
    return dict(mode=('monsters', 'sessions')[self.mode], streams=[[x[0] for x in st][:8] for st in self.streams])


class HistoryDemo(object):
  """the same message after two histories"""
  FIRST = FIRST2 = None

  def __init__(self, w):
    self.w = w
    import loader
    self.env = loader.Env(w)

  def main(self):
    fibs = self.env.load('bglib.protocol.fibs')
    out = []
    for h in (self.A, self.B):
      m = fibs.CookieMonster()
      for s in ['3', '4'] + h:
        m.make_cookie(s)
      out.append(m.make_cookie(self.MSG))
    self.out = out

  def judge(self):
    if self.out[0] != self.out[1]:
      raise Violation('kind-depends-on-history', '%r is %s after %r but %s after %r'
                      % (self.MSG, self.out[0], self.A, self.out[1], self.B))

  def nontrivial(self):
    return False


class BoardDemo(HistoryDemo):
  MSG = sess.BOARD
  A = ['board:']
  B = ['board:a:b:1']


DEMOS = {'S02-board-kind-depends-on-history': BoardDemo}
