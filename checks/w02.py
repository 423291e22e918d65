# -*- coding: us-ascii -*-
"""W02: rendering is repeatable and survives analysis-database failures."""
import errno
import re
import sess
import loader
import docs
from kernel import Violation

MAX_STEPS = 4000000


class DbTimeout(IOError):
  pass


def cube(n):
  return (dict(name='CubelessEquity', ply=2, cubeless=0.011 * n, money=0.008, Win=0.519, WinG=0.072, WinBg=0.002,
               Lose=0.481, LoseG=0.101, LoseBg=0.002),
          dict(nth=1, action=0, name='No double', equity=0.236, diff=None, actual=True),
          dict(nth=2, action=2, name='Double, pass', equity=0.236, diff=0.764),
          dict(nth=3, action=1, name='Double, take', equity=-0.096 * n, diff=-0.332))


def moves(n, k):
  return tuple(dict(nth=i + 1, ply=i % 3, cubeful=True, move='%d/%d(2) 13/7*' % (24 - i, 20 - n), equity=0.975 - i * 0.1 * n,
                    diff=i and -0.061 * i or 0.0, Win=0.752, WinG=0.123, WinBg=0.002, Lose=0.248, LoseG=0.028,
                    LoseBg=0.0, actual=i == n) for i in range(k))


IDS = ['vzsAAFhu2xFABA:QYkqASAAIAAA', 'cNcxAxCY54YBBg:cAn7ADAAIAAA', '4HPwATDgc/ABMA:8IhuACAACAAE', 'AAAAAAAAAAAAAA:AAAAAAAAAAAA',
       'vzsAAFhu2xFABA:cAn7ADAAIAAA', 'cNcxAxCY54YBBg:QYkqASAAIAAA']   # one position in two matches, two in one


class Db(object):
  """the analysis database; what it does is decided once per call and can be played again"""
  def __init__(self, case, plan, live):
    self.case, self.plan, self.live = case, plan, live
    self.answers = dict(zip(IDS, [(True, cube(1)), (False, moves(1, 3)), (False, moves(2, 1)), (True, cube(3)), (False, moves(3, 2)),
                                   (True, cube(2))]))
    self.key = None
    self.calls = 0
    self.raised = None

  def start(self, key):
    self.key, self.calls, self.raised, self.ok, self.bad = key, 0, None, [], False

  def get_analysis(self, pid, mid):
    case, w = self.case, self.case.w
    k = self.key, self.calls
    self.calls += 1
    if self.live:
      w.op('db')
      what = self.plan[k] = w.weighted([8, 2, 1, 1, 1], 'database') if case.faulty else 0
      if what == 4:
        w.fault('db-slow')
        w.sleep(w.pick([0.1, 30.0]))
    else:
      what = self.plan.get(k, 0)
    if what == 1:
      if self.live: w.fault('db-error')
      self.raised = IOError(errno.ECONNRESET, 'database went away')
      raise self.raised
    if what == 2:
      if self.live:
        w.fault('db-timeout')
        w.sleep(5.0)
      self.raised = DbTimeout('no answer')
      raise self.raised
    c, a = self.answers[pid + ':' + mid]
    if what == 3:
      if self.live: w.fault('db-garbage')
      self.bad = True
      return c, a[:-1] + (dict(a[-1], equity=None),)
    self.ok.append(pid + ':' + mid)
    return c, a


class Failing(object):
  """text escaping that runs out of memory on demand, while rendering"""
  def __init__(self, env, w):
    self.html = env.load('bglib.doc.html')
    self.real = self.html.escape
    self.w = w
    self.countdown = None
    self.html.escape = self.escape

  def escape(self, s):
    if self.countdown is not None:
      self.countdown -= 1
      if self.countdown < 0:
        self.countdown = None
        self.w.fault('no-memory-while-rendering')
        raise MemoryError('simulated')
    return self.real(s)


class Doc(object):
  def __init__(self, w, i):
    macros = ['[[Analysis(%s)]]' % p for p in IDS] * 2 + ['[[Position(%s)]]' % IDS[0], '[[BR]]']
    self.lines = []
    toc = w.flip(0.25, 'toc')
    if toc and w.flip(0.5):
      self.lines.append('[[TableOfContent]]')
      toc = False
    for j in range(w.rand_int(1, 8, 'blocks')):
      self.lines += docs.wiki_line(w, macros, True)
      if w.flip(0.3, 'analysis'):
        self.lines.append(w.pick(macros))
    if w.flip(0.04, 'rst'):
      self.lines += ['{{{', '#!rst', 'plain *text*', '', '* item', '}}}']
    if toc:
      self.lines.append('[[TableOfContent]]')
    # what the caller does: ('parse', a, b) | ('render', n) | ('refs',) | ('fail', countdown)
    self.ops = []
    a = 0
    while a < len(self.lines):
      b = min(len(self.lines), a + w.weighted([6, 3, 2, 1]) + 1)
      self.ops.append(('parse', a, b))
      a = b
      k = w.weighted([8, 2, 2, 1], 'between')
      if k == 1:
        self.ops.append(('render', w.rand_int(1, 3)))
      elif k == 2:
        self.ops.append(('refs',))
      elif k == 3:
        self.ops.append(('fail', w.skewed(12)))
    if w.flip(0.3):
      self.ops.append(('fail', w.skewed(12)))
    if w.flip(0.3):
      self.ops.append(('refs',))
    self.ops.append(('render', w.rand_int(1, 3)))


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.faulty = w.flip(0.8, 'faulty')
    self.docs = [Doc(w, i) for i in range(w.rand_int(1, 2, 'documents'))]
    self.knobs = dict(preempts=w.pick([0, 0, 4, 10]), gap=w.pick([30, 300, 1500]), p_switch=w.pick([0, 64]))
    self.renders = self.errors = self.tables = 0

  def setup(self, env):
    for m in ('bgwiki', 'macro', 'html'):
      env.load('bglib.doc.' + m)

  def main(self):
    w = self.w
    self.setup(self.env)
    self.table = {}
    for i in IDS:
      e = loader.Env(w)
      self.setup(e)
      db = Db(self, {}, False)
      e.load('bglib.doc.macro').setup(db)
      f = e.load('bglib.doc.bgwiki').Formatter(db)
      db.start(0)
      f.parse('[[Analysis(%s)]]' % i)
      self.table[i] = tables(f.make_html())
    w.tune(**self.knobs)
    # one program has one database; each document's calls are told apart by its thread
    self.dbs = {}
    case = self
    class Router(object):
      def get_analysis(self, pid, mid):
        return case.dbs[w.current.id].get_analysis(pid, mid)
    self.env.load('bglib.doc.macro').setup(Router())
    self.failing = Failing(self.env, w) if len(self.docs) == 1 else None
    T = self.env.sim['threading']
    ts = [T.Thread(target=self.user, args=(d,)) for d in self.docs]
    for t in ts: t.start()
    for t in ts: t.join()

  def user(self, d):
    w = self.w
    plan = {}
    db = self.dbs[w.current.id] = Db(self, plan, True)
    f = self.env.load('bglib.doc.bgwiki').Formatter(db)
    seen = self.play(d, f, db, self.failing, True)
    # the same history with each rendering done once and never interrupted
    env = loader.Env(w)
    self.setup(env)
    db2 = Db(self, plan, False)
    env.load('bglib.doc.macro').setup(db2)
    p = w.p_switch, w.preempts_left
    ref = self.play(d, env.load('bglib.doc.bgwiki').Formatter(db2), db2, None, False)
    self.require(len(seen) == len(ref), 'outcome-differs', '%r / %r' % (seen, ref))
    for (i, x), (j, y) in zip(seen, ref):
      if isinstance(y, Exception):
        self.require(type(x) is type(y), 'outcome-differs', 'op %d: %r, in a fresh program %r' % (i, x, y))
      else:
        self.require(untimed(x) == untimed(y), 'render-differs', 'op %d of %r on %r: got %r, in a fresh program rendering once %r' %
                     (i, d.ops, d.lines, x, y))
    # after all failures, a new attempt at the whole document is as good as a first one
    for which in (0, 1):
      if which == 0:
        f2, db3 = self.env.load('bglib.doc.bgwiki').Formatter(None), db
        db.plan = {}
        db.live = False
      else:
        f2, db3 = env.load('bglib.doc.bgwiki').Formatter(None), db2
        db2.plan = {}
      db3.start('again')
      try:
        f2.parse('\n'.join(d.lines) + '\n')
        html = f2.make_html()
      except Exception, e:
        html = type(e)
      if which == 0:
        first = html
      else:
        self.require(untimed(first) == untimed(html), 'retry-differs', 'retry after failures gives %r, not %r' % (first, html))

  def play(self, d, f, db, failing, full):
    w = self.w
    out = []
    good = []                 # analyses that succeeded so far
    broken = False
    for n, op in enumerate(d.ops):
      if op[0] == 'parse':
        text = '\n'.join(d.lines[op[1]:op[2]]) + '\n'
        db.start(n)
        if full: w.rec('parse', text=text)
        try:
          f.parse(text)
          exc = None
        except Exception, e:
          exc = e
        if full:
          if db.raised is not None:
            self.require(exc is db.raised, 'error-hidden', 'the database raised %r, parse(%r) %s' %
                         (db.raised, text, exc is None and 'returned' or 'raised %r' % exc))
            self.errors += 1
          elif not db.bad:
            self.require(exc is None, 'spurious-error', 'parse(%r) raised %r' % (text, exc))
        good += db.ok
        broken = broken or db.bad
        if exc is not None:
          # text parsed before is still there, text parsed later arrives
          if full and self.w.flip(0.5, 'look'):
            pass
          db.start((n, 'after'))
          f.parse('\n')
          f.parse('Marker%dq word\n' % n)
          out.append((n, 'failed'))
      elif op[0] == 'refs':
        if full:
          try:
            f.extract_references()
          except Exception, e:
            pass
      elif op[0] == 'fail':
        if full and failing is not None:
          failing.countdown = op[1]
          try:
            f.make_html()
          except MemoryError:
            pass
          except Exception, e:
            pass
          failing.countdown = None
        else:
          try:
            f.make_html()
          except Exception, e:
            pass
      else:
        first = None
        for k in range(op[1] if full else 1):
          try:
            html = f.make_html()
          except Exception, e:
            html = e
          if k == 0:
            first = html
          elif isinstance(first, Exception):
            self.require(type(html) is type(first), 'render-differs', 'rendering %d: %r then %r' % (k, first, html))
          else:
            self.require(html == first, 'render-differs', 'rendering %d of %r: %r then %r' % (k + 1, d.lines, first, html))
        if full:
          self.renders += op[1]
        out.append((n, first))
        if full and not isinstance(first, Exception):
          self.look(d, n, first, out, good, broken)
    return out

  def look(self, d, n, html, out, good, broken):
    b = docs.unbalanced(html)
    self.require(b is None, 'unbalanced', '%s in %r' % (b, html))
    text = docs.visible(html)
    for m, x in out:
      if x == 'failed':
        self.require('Marker%dqword' % m in text, 'later-text-lost', 'text parsed after the failure of op %d is missing '
                     'from %r' % (m, html))
    got = tables(html)
    for i in IDS:
      want = good.count(i) * len(self.table[i])
      have = sum(1 for t in got if t in self.table[i])
      if len(set(self.table[i])) == len(self.table[i]):
        self.require(have >= want if broken else have == want, 'table-differs', '%d tables of analysis %s, expected %d, in %r'
                     % (have, i, want, html))
        self.tables += have
    if not any('TableOfContent' in l for l in d.lines) and not any(l == '{{{' for l in d.lines):
      before = [x for m, x in out[:-1] if isinstance(x, basestring) and x != 'failed' and m < n]
      if before:
        p = re.sub(r'\s+', '', docs.opened_only(before[-1]))
        self.require(re.sub(r'\s+', '', html).startswith(p), 'earlier-text-changed', '%r is not where %r begins' % (html, before[-1]))

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.renders > 1 and (self.errors > 0 or self.tables > 0)

  def sample(self):
    return dict(docs=[d.lines for d in self.docs], ops=[d.ops for d in self.docs], renders=self.renders,
                errors=self.errors, tables=self.tables)


TABLE = re.compile(r'<table class="(?:move|cubeless|cubeaction)">.*?</table>', re.S)


def untimed(html):
  return isinstance(html, basestring) and docs.ISO.sub('TIME', html) or html


def tables(html):
  return [re.sub(r'\s+', ' ', t) for t in TABLE.findall(html)]
