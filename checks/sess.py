# -*- coding: us-ascii -*-
"""Shared pieces of the session checks: simulated FIBS peers, subscribers, streams."""
import errno
import loader
import simmods
from kernel import Violation, DONE

IAC = chr(255)
CRLF = '\r\n'
PROMPT = 'login: '

NAMES = ['gBOT', 'alice', 'bob', 'Nori_H', 'x', '<mod>']
BOARD = ('board:You:someplayer:3:0:1:0:-2:0:0:0:0:5:0:3:0:0:0:-5:5:0:0:0:-3:0:-5:0:0:0:0:2:0:1:'
         '6:2:0:0:1:1:1:0:1:-1:0:25:0:0:0:0:2:0:0:0')


def tune(w, net=None, heavy=True):
  """swarm knobs of one run; all-zero choices mean the plainest schedule"""
  w.tune(preempts=w.pick([0, 1, 2, 4, 10], 'preempts'), gap=w.pick([40, 200, 800], 'gap'),
         p_switch=w.pick([0, 24, 80, 160], 'psw'), stall=w.pick([1e18, 0.05, 0.0], 'stall'))
  if net is not None:
    net.seg = w.pick([0, 1, 3, 9, 50], 'seg')
    net.jitter = w.pick([0.0, 0.004, 0.05], 'jitter')
    net.short_recv = w.pick([0, 0, 1, 6], 'short_recv')
    net.eintr = w.pick([0.0, 0.0, 0.05, 0.25], 'eintr')
    net.has_poll = w.pick([True, True, False], 'poll')


PRINT = ''.join(map(chr, range(32, 127)))
ODD = PRINT + '\r\n\t' + IAC + '\x80\xe9\x1b\x07'


def text(w, n, alphabet):
  return ''.join([alphabet[w.choose(len(alphabet), 'ch')] for i in range(n)])


def wild_line(w):
  """any text a server line may hold (no CRLF, NUL, XON; IAC allowed: it is escaped on the wire)"""
  k = w.weighted([6, 3, 3, 2, 2, 2, 1, 1, 1], 'line')
  if k == 0:
    s = 'line %d' % w.choose(50, 'ln')
  elif k == 1:
    s = text(w, w.skewed(30, 'len'), PRINT)
  elif k == 2:
    s = '** Last login: Fri Dec 1%d from here' % w.choose(10)
  elif k == 3:
    s = ''
  elif k == 4:
    s = w.pick(['3', '4', '6', '1 nori 1041253132 host', '2 nori 1 1 0 0 0', 'x' + PROMPT, 'login:', 'logi',
                '              Goodbye.', BOARD, "It's your turn to roll or double.", '12 bob hi', ' '], 'fixed')
  elif k == 5:
    s = text(w, 1 + w.skewed(20, 'len'), ODD)
  elif k == 6:
    s = text(w, 1 + w.skewed(3, 'len'), '\r\n' + IAC + 'a')
  elif k == 7:
    times = w.pick([1, 1, 1, 1, 20], 'times')
    if times > 1:
      # kilobytes that may arrive byte by byte: two such lines in a run are enough
      w.kilo = getattr(w, 'kilo', 0) + 1
      times = w.kilo < 3 and times or 1
    s = 'long ' + 'abcdefghij' * (5 + w.choose(30, 'long')) * times
  else:
    s = '%s says: login: me' % w.pick(NAMES)
  while CRLF in s:
    s = s.replace(CRLF, '\n')
  if s.startswith(PROMPT):
    s = '.' + s
  return s


def wire(items):
  """bytes the server puts on the connection: items are ('line', text) / ('prompt',) / ('tail', text)"""
  out = []
  for it in items:
    if it[0] == 'prompt':
      out.append(PROMPT)
    elif it[0] == 'line':
      out.append(it[1].replace(IAC, IAC + IAC) + CRLF)
    else:
      out.append(it[1].replace(IAC, IAC + IAC))
  return out


def texts(items):
  return [it[0] == 'prompt' and PROMPT or it[1] for it in items]


class Peer(object):
  """a simulated server: plays items with delays, then ends as told"""
  def __init__(self, w, items=(), gaps=None, end='eof', end_gap=0.0, errno_=errno.ECONNRESET, drop=True):
    self.w = w
    self.items = list(items)
    self.gaps = gaps or []
    self.end = end
    self.end_gap = end_gap
    self.errno = errno_
    self.drop = drop
    self.ep = None
    self.eps = []
    self.got = ''
    self.saw_eof = False
    self.hold_eof = False
    self.on_connect = None

  def connected(self, ep):
    self.ep = ep
    self.eps.append(ep)
    ep.on_data = self.on_data
    ep.on_eof = self.on_eof
    self.chunks = wire(self.items)
    self.pos = 0
    if self.on_connect:
      self.on_connect(ep)
    self.play()

  def play(self):
    """push items until one has a gap before it"""
    w, ep = self.w, self.ep
    while self.pos < len(self.chunks):
      i = self.pos
      g = i < len(self.gaps) and self.gaps[i] or 0.0
      if g:
        self.gaps = self.gaps[:i] + [0.0] + self.gaps[i + 1:]
        w.after(g, self.play, 'server')
        return
      if ep.closed or ep.err is not None or ep.fin_sent:
        return
      ep.push(self.chunks[i])
      self.pos += 1
    if self.end == 'eof':
      ep.push_eof(self.end_gap)
    elif self.end == 'reset':
      ep.push_reset(self.errno, self.end_gap, self.drop)

  def on_data(self, ep, chunk):
    self.got += chunk

  def on_eof(self, ep):
    self.saw_eof = True
    if not self.hold_eof:
      ep.push_eof()


def gaps(w, n):
  """time before each item: mostly none"""
  mode = w.pick([0, 1, 2], 'gapmode')
  if mode == 0:
    return []
  if mode == 1:
    return [w.flip(0.2, 'gap') and 0.02 or 0.0 for i in range(n)]
  return [0.01 * w.choose(4, 'gap') for i in range(n)]


def is_handler(name):
  return name[:5] in ('FIBS_', 'CLIP_') or name in ('EOFError', 'socket_error')


def make_catchall(S, w, log, hook=None):
  """subscriber class taking every message; log(sub, name, got) at entry"""
  class CatchAll(S.Subscriber):
    def __init__(self, tag):
      S.Subscriber.__init__(self)
      self.tag = tag

    def __hash__(self):
      return 17

    def __repr__(self):
      return '<sub %s>' % (self.tag,)

    def __getattr__(self, name):
      if not is_handler(name):
        raise AttributeError(name)
      def handler(got):
        log(self, name, got)
        w.op('cb')
        if hook is not None:
          hook(self, name, got)
      return handler
  return CatchAll


def make_subset(S, w, log, kinds, hook=None):
  """subscriber class with ordinary methods for some kinds only"""
  class Subset(S.Subscriber):
    def __init__(self, tag):
      S.Subscriber.__init__(self)
      self.tag = tag

    def __hash__(self):
      return 19

  def bind(k):
    def handler(self, got):
      log(self, k, got)
      w.op('cb')
      if hook is not None:
        hook(self, k, got)
    return handler
  for k in kinds:
    setattr(Subset, k, bind(k))
  return Subset


class Base(object):
  """a session case: env, knobs, history of callbacks"""
  LOADS = 'bglib.protocol.session'

  def __init__(self, w):
    self.w = w
    self.env = loader.Env(w)
    self.net = self.env.net
    self.calls = []            # (session tag, sub tag, kind, text, seq)

  def log(self, sub, name, got):
    seq = self.w.rec('cb', sub=sub.tag, name=name, got=got if isinstance(got, str) else repr(got))
    self.calls.append((sub.tag, name, got, seq))

  def of(self, tag):
    return [(n, g) for t, n, g, s in self.calls if t == tag]

  def open(self, session, addr, tries=1):
    session.open(addr[0], addr[1])
    self.w.rec('opened', addr=addr[1])

  def nontrivial(self):
    return len(self.calls) > 1 and self.w.switches > 2

  def require(self, cond, kind, detail=''):
    if not cond:
      raise Violation(kind, detail)

  def check_logged(self):
    """the code logs and swallows exceptions of its reader; callbacks of these cases never raise"""
    bad = [x for x in self.w.logged if x[0] not in ('SystemExit', 'AttributeError')]
    self.require(not bad, 'reader-failed', repr(bad[:3]))
