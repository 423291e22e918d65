# -*- coding: us-ascii -*-
"""W01: documents formatted concurrently or piecemeal come out as if alone and whole."""
import datetime as real_datetime
import sess
import loader
import docs
from kernel import Violation
from simmods import SimModule

MAX_STEPS = 4000000


class LineClock(object):
  """datetime module whose clock shows which line is being parsed"""
  def __init__(self):
    self.line = 0
    me = self
    m = self.module = SimModule('datetime', real_datetime)
    class datetime(real_datetime.datetime):
      @classmethod
      def now(cls, tz=None):
        return real_datetime.datetime(1971, 1, 1) + real_datetime.timedelta(days=me.line)
      utcnow = today = now
    m.datetime = datetime


class Doc(object):
  def __init__(self, w, i, heavy=False):
    self.kind = w.weighted([12, 3, 3, 1], 'kind')
    n = (w.flip(0.02, 'plenty') and 50 or w.skewed(12, 'lines')) + 1
    self.rst = False
    if self.kind == 0:
      toc = w.flip(0.2, 'toc')
      macros = list(docs.MACROS) + ['[[Timestamp]]'] * 3 + ['[[Analysis(%s)]]' % p for p in docs.POSITIONS[:2]]
      self.rst = w.flip(0.04, 'rst')
      self.lines = docs.wiki(w, n, macros, True, self.rst, heavy)
      if toc:
        self.lines.insert(0, '[[TableOfContent]]')
      self.lines.insert(w.choose(len(self.lines) + 1), 'Doc%dMark' % i)
      self.name = 'wiki'
    elif self.kind == 1:
      self.name = 'mkdn'
      self.lines = [w.pick(docs.MARKDOWN).replace('%s', 'r%d' % i) for j in range(n)]
    elif self.kind == 2:
      self.name = 'preformat'
      self.lines = [docs.inline(w) for j in range(n)]
    else:
      self.name = 'rst'
      self.lines = [w.pick(docs.RST) for j in range(n)]
    self.text = '\n'.join(self.lines) + '\n'
    self.path = w.pick([None, '/wiki/', '/w%d/' % i])
    cuts = []
    mode = w.choose(3, 'chunking')
    for j in range(1, len(self.lines)):
      if mode == 1 or mode == 2 and w.flip(0.5, 'cut'):
        cuts.append(j)
    cuts = [0] + cuts + [len(self.lines)]
    self.chunks = [(a, b, '\n'.join(self.lines[a:b]) + '\n') for a, b in zip(cuts, cuts[1:])]
    self.want = self.marks = None

  def formatter(self, env):
    if self.name == 'wiki':
      return env.load('bglib.doc.bgwiki').Formatter(env.db, self.path)
    if self.name == 'mkdn':
      return env.load('bglib.doc.mkdn').Formatter()
    if self.name == 'rst':
      return env.load('bglib.doc.rst').Formatter()
    return env.load('bglib.doc.bgwiki').PreformatFormatter()


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    heavy = w.flip(0.25, 'full of macros')
    self.docs = [Doc(w, i, heavy) for i in range(w.rand_int(1, 3, 'documents'))]
    self.knobs = dict(preempts=w.pick([0, 3, 6, 14]), gap=w.pick([30, 200, 1500]), p_switch=w.pick([0, 128]),
                      stall=w.pick([1e18, 0.0]))
    self.jumps = w.pick([0, 0, 3], 'clock jumps')
    self.naps = w.pick([0, 0.01, 100.0], 'naps')
    self.skews = [0.0]
    self.done = 0
    self.stamps = 0
    self.exc = 0

  def setup(self, env):
    """load everything a process of this kind loads, and the database"""
    for m in ('bgwiki', 'macro', 'mkdn', 'rst', 'mock', 'html'):
      env.load('bglib.doc.' + m)
    env.db = env.load('bglib.doc.mock').DataBaseMock()
    env.load('bglib.doc.macro').setup(env.db)

  def expect(self, d):
    """the same document formatted whole, alone, in a fresh process"""
    env = loader.Env(self.w)
    clock = LineClock()
    env.sim['datetime'] = clock.module
    self.setup(env)
    f = d.formatter(env)
    try:
      whole = d.formatter(env)
      whole.parse(d.text)
      html = whole.make_html()
      for i, l in enumerate(d.lines):
        clock.line = i
        f.parse(l + '\n')
      marks = docs.ISO.findall(f.make_html())
    except Exception, e:
      d.want = e
      self.exc += 1
      return
    epoch = real_datetime.datetime(1971, 1, 1)
    d.marks = [(real_datetime.datetime.strptime(m, '%Y-%m-%dT%H:%M:%S') - epoch).days for m in marks]
    d.want = docs.ISO.sub('@TIME@', html)

  def main(self):
    w = self.w
    for d in self.docs:
      self.expect(d)
    self.setup(self.env)
    w.tune(**self.knobs)
    for i in range(self.jumps):
      w.after(w.pick([0.0, 0.005, 1.0, 50.0]), self.jump, 'clock jumps')
    T = self.env.sim['threading']
    ts = []
    for i, d in enumerate(self.docs):
      ts.append(T.Thread(target=self.format, args=(d,)))
      if w.flip(0.3, 'twice'):
        ts.append(T.Thread(target=self.format, args=(d,)))
    for t in ts: t.start()
    for t in ts: t.join()

  def jump(self):
    self.w.clock_skew += self.w.pick([3600.0, -3600.0, 0.5, -86400.0 * 400])
    self.w.fault('clock-jump')
    self.skews.append(self.w.clock_skew)

  def format(self, d):
    w = self.w
    f = d.formatter(self.env)
    window = {}
    try:
      for a, b, text in d.chunks:
        if self.naps:
          w.sleep(w.pick([0.0, 0.001, 1.0]) * self.naps)
        n0 = len(self.skews) - 1
        t0 = w.now
        f.parse(text)
        t1 = w.now
        for j in range(a, b):
          window[j] = (t0, t1, self.skews[n0:])
      html = f.make_html()
      exc = None
    except Exception, e:
      html, exc = None, e
    w.rec('formatted', doc=self.docs.index(d), exc=repr(exc))
    what = '%s document %d %r (chunks %r)' % (d.name, self.docs.index(d), d.text, [c[:2] for c in d.chunks])
    if isinstance(d.want, Exception):
      self.require(type(exc) is type(d.want), 'other-error', '%s raised %r; alone it raises %r' % (what, exc, d.want))
      return
    self.require(exc is None, 'spurious-error', '%s raised %r' % (what, exc))
    times = docs.ISO.findall(html)
    got = docs.ISO.sub('@TIME@', html)
    self.require(got == d.want, 'document-differs', '%s: got %r, alone and whole %r' % (what, got, d.want))
    self.done += 1
    if len(times) != len(d.marks):
      return
    for s, line in zip(times, d.marks):
      try:
        t = real_datetime.datetime.strptime(s, '%Y-%m-%dT%H:%M:%S.%f')
      except ValueError:
        t = real_datetime.datetime.strptime(s, '%Y-%m-%dT%H:%M:%S')
      t = (t - real_datetime.datetime(2009, 1, 1))
      t = t.days * 86400 + t.seconds + t.microseconds * 1e-6
      t0, t1, skews = window[line]
      self.require(any(t0 + k - 0.01 <= t <= t1 + k + 0.01 for k in skews), 'timestamp',
                   '%s: line %d was parsed from %.3f to %.3f (clock offsets %r) but shows %.3f' % (what, line, t0, t1, skews, t))
      self.stamps += 1

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.done > 1

  def sample(self):
    return dict(docs=[(d.name, d.text[:200], len(d.chunks)) for d in self.docs], timestamps=self.stamps)
