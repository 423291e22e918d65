# -*- coding: us-ascii -*-
"""R01: a match record is validated and chopped as its own bytes say, whatever happens around it."""
import errno
import hashlib
import re
import types
import sess
from kernel import Violation

PATHS = ['1857680.txt', '1857896.txt', '1859149.txt']
NAMES = ['DianaIN', 'bgnori', 'a b', 'x_1', 'Nori,1523', 'ein', '\xe5\xa4\xa9']
BAD = ['hogehoge', '1857680', 'Gamble 3', 'point match', '12 points', '** zooba', ' bgnori 3', '\xff\xfe']
ACTIONS = ['31: 8/5 6/5', '66: 25/19* 8/2', '41: ', '22:', 'Doubles => 2', 'Takes', 'Drops']


def third_party():
  """stand-ins for the missing packages: a decorator keeps the name, a line parser calls the handler
  named like the group that matched"""
  d = types.ModuleType('decorator')
  def decorator(caller, func):
    def wrapped(*a, **kw):
      return caller(func, *a, **kw)
    wrapped.__name__ = func.__name__
    return wrapped
  d.decorator = decorator
  t = types.ModuleType('tonic')
  l = types.ModuleType('tonic.lineparser')
  class LineParser(object):
    _first = _last = ''
    def parse(self, line):
      pat = re.compile(self._first + '|' + self._last)
      for m in pat.finditer(line):
        for name, match in m.groupdict().items():
          if match:
            f = getattr(self, 'handle_' + name, None)
            if f:
              f(match, m)
  l.LineParser = LineParser
  t.lineparser = l
  return d, t


def player(w):
  return '%s : %d' % (w.pick(NAMES), w.choose(9, 'score'))


def line(w, kind, n=1, first=True):
  if kind == 'length':
    s = ' %d point match' % w.pick([1, 5, 7, 13, 25])
  elif kind == 'empty':
    return w.pick(['', '', ' ', '   '])
  elif kind == 'game':
    s = ' Game %d' % n
  elif kind == 'players':
    s = ' ' + player(w) + ' ' * w.pick([1, 10, 25]) + player(w)
  elif kind == 'moves':
    s = ' %2d) ' % n + w.pick(ACTIONS) + ' ' * w.pick([1, 20]) + w.pick(ACTIONS + [''])
  elif kind == 'wins':
    s = ' ' * w.pick([1, 6, 34]) + 'Wins %d point%s' % w.pick([(1, ''), (2, 's'), (4, 's and the match')])
  else:
    s = w.pick(BAD)
  return s


def record(w):
  """[(kind, number, text without line end)] of a whole record"""
  out = []
  def add(kind, n=0):
    out.append((kind, n, line(w, kind, n)))
  if w.flip(0.85, 'length'):
    add('length')
  else:
    add('empty')
  games = w.flip(0.03, 'plenty') and 40 or w.skewed(5, 'games')
  for g in range(games):
    for i in range(w.choose(3, 'blank')):
      add('empty')
    add('game', g + 1)
    add('players')
    for i in range(w.flip(0.05, 'long game') and 120 or 1 + w.skewed(12, 'moves')):
      add('moves', i + 1)
    if w.flip(0.6, 'wins'):
      add('wins')
  if w.flip(0.3, 'end'):
    add('empty')
  return out


def spoil(w, out):
  """one thing wrong in the record, or maybe not wrong at all"""
  out = list(out)
  i = w.choose(len(out), 'where')
  k = w.choose(6, 'spoil')
  if k == 0: del out[i]
  elif k == 1: out.insert(i, out[w.choose(len(out), 'other')])
  elif k == 2:
    j = w.choose(len(out), 'other')
    out[i], out[j] = out[j], out[i]
  elif k == 3: out.insert(i, ('bad', 0, line(w, 'bad')))
  elif k == 4:
    n = w.choose(12, 'number')
    out.insert(i, ('moves', n, line(w, 'moves', n)))
  else: out.insert(i, ('empty', 0, ''))
  return out


class Order(object):
  """the order the lines of a record may come in"""
  NEXT = {None: ['length'], 'empty': ['game'], 'length': ['game'], 'game': ['players'], 'players': ['moves'],
          'moves': ['moves', 'game']}
  def __init__(self):
    self.at, self.n = None, 0
  def accept(self, kind, n):
    if kind == 'wins':
      return True
    if kind == 'empty':
      self.at = kind
      return True
    if kind not in self.NEXT[self.at]:
      return False
    self.n = self.n + 1 if kind == self.at == 'moves' else 1
    self.at = kind
    return kind != 'moves' or n == self.n


class Doc(object):
  def __init__(self, w, path):
    self.path = path
    lines = record(w)
    if w.flip(0.4, 'spoilt'):
      lines = spoil(w, lines)
    self.kinds = [(k, n) for k, n, s in lines]
    eol = w.pick(['\n', '\n', '\r\n'], 'eol')
    self.lines = [s + eol for k, n, s in lines]
    if w.flip(0.2, 'no newline at end') and self.kinds and self.kinds[-1][0] != 'empty':
      self.lines[-1] = lines[-1][2]
    self.text = ''.join(self.lines)
    o = Order()
    self.good = 0                       # lines accepted
    for k, n in self.kinds:
      if not o.accept(k, n):
        break
      self.good += 1
    self.whole = self.good == len(self.lines)

  def games(self, upto=None):
    """the games chopping gives from the first lines"""
    head, out, cur = '', [], None
    for (k, n), s in zip(self.kinds, self.lines)[:upto]:
      if k == 'length':
        head = s
      elif k == 'game':
        cur = [head, '\n', s]
        out.append(cur)
      elif k != 'empty' and cur is not None:
        cur.append(s)
    return [''.join(x) for x in out]


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 3, 8, 30]), gap=w.pick([5, 30, 120]), p_switch=w.pick([0, 32, 64]), stall=1e18)
    self.env.sim['decorator'], self.env.sim['tonic'] = third_party()
    self.env.use_disk()
    disk = self.disk = self.env.disk
    disk.short = w.pick([0, 1, 7, 30, 200], 'short_read')
    self.docs = [Doc(w, p) for p in PATHS[:w.rand_int(1, 3, 'files')]]
    for d in self.docs:
      disk.files[d.path] = d.text
    self.fail = w.flip(0.3, 'disk errors')
    self.hit = {}
    disk.read_faults.append(self.on_read)
    self.sums = self.refused = self.chopped = self.errors = 0

  def on_read(self, f, pos, n):
    if self.fail and self.w.flip(0.03, 'EIO'):
      self.hit[f] = e = self.w.pick([errno.EIO, errno.ESTALE], 'which')
      return e
    return None

  def main(self):
    w = self.w
    self.R = self.env.load('bglib.record.snowietxt')
    T = self.env.sim['threading']
    ts = [T.Thread(target=self.worker, args=(i,)) for i in range(w.rand_int(1, 3, 'threads'))]
    for t in ts: t.start()
    for t in ts: t.join()

  def worker(self, i):
    for k in range(self.w.rand_int(1, 4, 'jobs')):
      w = self.w
      [self.validate, self.feed, self.chop, self.together][w.weighted([3, 3, 2, 2], 'job')](w.pick(self.docs))

  def digest(self, h):
    return h.hexdigest()

  def sha(self, text):
    return hashlib.sha1(text).hexdigest()

  def limit(self, d):
    w = self.w
    n = len(d.text)
    # exactly at the limit itself nothing is claimed
    return w.pick([None, None, None, 0, n + 1, n * 2 + 1, max(1, n - 1), max(1, n // 2)], 'limit')

  def validate(self, d):
    """a whole file through validate()"""
    w = self.w
    top = self.limit(d)
    v = self.R.Validator(top) if top is not None else self.R.Validator()
    f = self.env.sim_open(d.path)
    w.rec('validate', path=d.path, limit=top)
    exc = h = None
    try:
      try:
        h = v.validate(f)
      except (ValueError, IOError), e:
        exc = e
    finally:
      f.close()
    w.rec('validated', path=d.path, exc=repr(exc))
    what = '%s (%d lines, %d in order, limit %r)' % (d.path, len(d.lines), d.good, top)
    if f in self.hit:
      self.require(isinstance(exc, IOError) and exc.errno == self.hit[f] or isinstance(exc, ValueError), 'error-hidden',
                   'the disk failed while %s was validated: %r' % (what, exc or h))
      self.errors += 1
      return
    self.require(not isinstance(exc, IOError), 'spurious-error', '%s: %r' % (what, exc))
    long_ = top and len(d.text) > top
    fits = not top or len(d.text) < top
    if exc is None:
      self.require(d.whole, 'accepted', '%s was accepted; first line out of order: %r' % (what, d.lines[d.good:d.good + 1]))
      self.require(not long_, 'accepted', '%s has %d bytes and was accepted' % (what, len(d.text)))
      self.require(self.digest(h) == self.sha(d.text), 'digest', '%s has another digest than its bytes' % what)
      self.sums += 1
    else:
      self.require(not (d.whole and fits), 'refused', '%s was refused: %r' % (what, exc))
      self.refused += 1

  def feed(self, d):
    """line by line, looking at the digest on the way"""
    w = self.w
    v = self.R.Validator()
    for i, s in enumerate(d.lines):
      if not self.step(v, d, i):
        return
      if w.flip(0.1, 'look'):
        self.require(self.digest(v.done()) == self.sha(''.join(d.lines[:i + 1])), 'digest',
                     'after %d lines of %s' % (i + 1, d.path))
    self.require(self.digest(v.done()) == self.sha(d.text), 'digest', '%s fed line by line' % d.path)
    self.sums += 1

  def step(self, v, d, i):
    """feed line i, whose predecessors were all accepted"""
    self.w.op('feed')
    try:
      v.feed(d.lines[i])
    except ValueError, e:
      self.require(i == d.good, 'refused', 'line %d of %s, %r: %r' % (i, d.path, d.lines[i], e))
      self.refused += 1
      return False
    self.require(i < d.good, 'accepted', 'line %d of %s, %r after %r' % (i, d.path, d.lines[i], d.lines[max(0, i - 3):i]))
    return True

  def together(self, d):
    """two records fed in turns in one thread"""
    w = self.w
    e = w.pick(self.docs)
    todo = [[self.R.Validator(), d, 0], [self.R.Validator(), e, 0]]
    while todo:
      t = w.pick(todo, 'turn')
      v, x, i = t
      if i == len(x.lines):
        self.require(self.digest(v.done()) == self.sha(x.text), 'digest', '%s fed in turns with another' % x.path)
        self.sums += 1
        todo.remove(t)
      elif self.step(v, x, i):
        t[2] += 1
      else:
        todo.remove(t)

  def chop(self, d):
    w = self.w
    ks = [k for k, n in d.kinds]
    # nothing is claimed about a result that follows no move, nor about a record without games
    if 'game' not in ks[:d.good] or [1 for a, b in zip([None] + ks, ks) if b == 'wins' and a not in ('moves', 'wins')]:
      return
    want = d.games(d.good)
    got = []
    exc = None
    w.rec('chop', path=d.path)
    try:
      for g in self.R.chop(d.text):
        got.append(g)
        w.op('game')
        if w.flip(0.02, 'abandon'):
          self.require(got == want[:len(got)], 'games', '%s: %r, not %r' % (d.path, got, want))
          return
    except ValueError, e:
      exc = e
    w.rec('chopped', path=d.path, games=len(got), exc=repr(exc))
    self.require((exc is None) == d.whole, exc and 'refused' or 'accepted', '%s: %r' % (d.path, exc))
    if not d.whole:
      want = want[:len(got)]            # the game with the bad line never comes out
      self.require(len(got) < len(d.games(d.good)) or d.kinds[d.good][0] == 'game', 'games', 'the unfinished game of %s came out' % d.path)
    self.require(got == want, 'games', '%s was chopped into %r, not %r' % (d.path, got, want))
    self.chopped += 1

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.sums + self.refused + self.chopped > 1

  def sample(self):
    return dict(accepted=self.sums, refused=self.refused, chopped=self.chopped, disk_errors=self.errors,
                lines=[len(d.lines) for d in self.docs])
