# -*- coding: us-ascii -*-
"""C01: loading a style sheet yields all of its rules or an error, and frees the file."""
import errno
import sess
from kernel import Violation

ELEMENTS = ['point', 'bar', 'board', 'chequer', 'home', 'field', 'die', 'top_frame', 'score']
NAMES = ['x', 'y', 'width', 'height', 'image', 'flip', 'background', 'color', 'font', 'die_style']
VALUES = ['0', '12', '341', 'red', '#ee40d6', 'True', 'uri("even-1.jpg")', 'uri("http://h/x.png")', 'uri("./a/b-c_d.ttf")', 'dot', '1.5']
ATTRS = [('parity', 'odd'), ('parity', 'even'), ('player', 'you'), ('player', 'him'), ('x', '0'), ('die_style', 'big-dot')]
DATA = ['1', '24', 'Double', '0', 'x y']
NOISE = ['', ' ', '/* header */', '# comment', 'point chequer', '};', 'x' * 70, '\xe3\x81\x82', '\t', 'a: b;']
ODD = ['{x: 1}', 'point {}', ' {color: red}']
ERRNOS = [errno.EIO, errno.ESTALE, errno.EINTR]


class Line(object):
  def __init__(self, w):
    self.rule = None
    k = w.weighted([8, 4, 1], 'line')
    self.odd = k == 2
    if k == 1:
      self.text = w.pick(NOISE)
    elif k == 2:
      self.text = w.pick(ODD)
    else:
      pat, sel = [], []
      for i in range(w.rand_int(1, 3, 'selectors')):
        e = w.pick(ELEMENTS)
        s, a, d = e, (None, None), None
        if w.flip(0.4):
          a = w.pick(ATTRS)
          s += '[%s=%s]' % a
        if w.flip(0.3):
          d = w.pick(DATA[:4])
          s += ':data(%s)' % d
        sel.append(s)
        pat.append((e, a[0], a[1], d))
      block, txt = {}, []
      for i in range(w.rand_int(1, 4, 'declarations')):
        n, v = w.pick(NAMES), w.pick(VALUES)
        block[n] = v
        txt.append(w.pick(['%s:%s', '%s: %s', ' %s : %s ']) % (n, v))
      self.text = w.pick(['', ' ']) + w.pick([' ', '  ']).join(sel) + w.pick([' {', '{', '   {']) + \
          ';'.join(txt) + w.pick(['}', ';}', ' }'])
      self.upto = len(self.text)
      self.text += w.pick(['', '', ' ', '\r'])
      self.rule = (tuple(pat), block)


class Sheet(object):
  def __init__(self, w, path):
    self.path = path
    self.lines = [Line(w) for i in range((w.flip(0.04, 'plenty') and 200 or w.skewed(24, 'lines')) + 1)]
    for i in range(w.skewed(3, 'repeated')):
      l = self.lines[w.choose(len(self.lines), 'again')]
      self.lines.insert(w.choose(len(self.lines) + 1, 'at'), l)
    self.finish(w)

  def edited(self, w):
    """the same sheet after its owner changed it"""
    s = Sheet.__new__(Sheet)
    s.path = self.path
    s.lines = list(self.lines)
    for i in range(w.skewed(3, 'edits') + 1):
      k = w.choose(3, 'edit')
      j = w.choose(len(s.lines), 'where')
      if k == 0: s.lines.insert(j, Line(w))
      elif k == 1: s.lines[j] = Line(w)
      elif len(s.lines) > 1: del s.lines[j]
    s.finish(w)
    return s

  def finish(self, w):
    self.odd = any(l.odd for l in self.lines)
    self.text = '\n'.join(l.text for l in self.lines) + w.pick(['\n', ''])
    self.cut = len(self.text)
    if w.flip(0.25, 'torn'):
      self.cut = w.choose(len(self.text) + 1, 'cut')
      w.fault('torn-file')
    self.want = []
    pos = 0
    for no, l in enumerate(self.lines):
      if l.rule and pos + l.upto <= self.cut:
        self.want.append((no + 1, l.rule[0], l.rule[1]))
      pos += len(l.text) + 1
    self.content = self.text[:self.cut]


def shape(tree):
  out = []
  def look(path):
    e = path[-1]
    out.append((len(path), e.name, sorted((k, str(a)) for k, a in e.attributes.items()), list(e.css_lineno)))
  tree.visit(look, [tree.board])
  return out


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 4, 8, 30]), gap=w.pick([6, 40, 250]), p_switch=w.pick([0, 64]), stall=1e18)
    self.env.use_disk()
    disk = self.disk = self.env.disk
    disk.short = w.pick([0, 0, 1, 5, 60], 'short_read')
    self.sheets = [Sheet(w, 'theme%d/default.css' % i) for i in range(w.rand_int(1, 3, 'sheets'))]
    for s in self.sheets:
      disk.files[s.path] = s.content
    self.fault = w.pick(['none', 'none', 'sector', 'random', 'open'], 'fault')
    self.bad = None
    if self.fault == 'sector':
      s = w.pick(self.sheets)
      self.bad = (s.path, w.choose(len(s.content) + 1, 'sector'), w.pick(ERRNOS))
    disk.read_faults.append(self.on_read)
    self.open_errno = {}
    if self.fault == 'open':
      s = w.pick(self.sheets)
      self.open_errno[s.path] = e = w.pick([errno.ENOENT, errno.EACCES, errno.EMFILE])
      disk.open_faults[s.path] = [None] * w.choose(3) + [e]
    self.failed = {}              # task id -> errnos injected into its load
    self.count = 0
    self.kept = []
    self.results = []

  def on_read(self, f, pos, n):
    e = None
    if self.bad and f.name == self.bad[0] and pos <= self.bad[1] < pos + max(1, n):
      e = self.bad[2]
    if self.fault == 'random' and self.w.flip(0.05, 'EIO'):
      e = self.w.pick(ERRNOS)
    if e is not None:
      self.failed.setdefault(self.w.current.id, []).append(e)
    return e

  def main(self):
    w = self.w
    self.css = self.env.load('bglib.image.css')
    self.base = self.env.load('bglib.image.base')
    T = self.env.sim['threading']
    for phase in range(w.pick([1, 1, 2, 3], 'phases')):
      if phase:
        i = w.choose(len(self.sheets), 'edited')
        s = self.sheets[i] = self.sheets[i].edited(w)
        self.disk.files[s.path] = s.content
        w.fault('sheet-edited')
      ts = [T.Thread(target=self.loader) for i in range(w.rand_int(1, 3, 'loaders'))]
      for t in ts: t.start()
      for t in ts: t.join()
    # sheets loaded before are still what they were
    for s, b in self.kept:
      self.same(s, b, 'later')
    w.rec('all-done')

  def loader(self):
    for i in range(self.w.rand_int(1, 3, 'loads')):
      (self.load, self.dress)[self.w.flip(0.25, 'tree')](self.w.pick(self.sheets))

  def dress(self, s):
    """the other way in: an element tree reads a sheet and applies it to itself"""
    w = self.w
    me = w.current.id
    self.failed[me] = []
    tree = self.base.ElementTree()
    bare = shape(tree)
    try:
      tree.css(s.path)
      exc = None
    except Exception, e:
      exc = e
    w.rec('dressed', path=s.path, exc=repr(exc))
    bad = self.failed[me]
    self.results.append((s.path, exc is None or repr(exc)))
    if isinstance(exc, (IOError, OSError)):
      ok = exc.errno in bad or (not bad and self.open_errno.get(s.path) == exc.errno and
                                w.faults.get('open-' + errno.errorcode[exc.errno]))
      self.require(ok, 'spurious-error', 'dressing with %s raised %r (injected: %r)' % (s.path, exc, bad))
      self.require(shape(tree) == bare, 'partly-dressed', 'after %r of %s: %r' % (exc, s.path, shape(tree)))
      return
    self.require(not bad, 'error-hidden', 'dressing with %s went on after %r' % (s.path, bad))
    self.count += 1
    if s.odd:
      return
    other = self.base.ElementTree()
    rules = self.css.Binder()
    for no, pattern, block in s.want:
      r = self.css.Rule(s.path, no)
      for p in pattern:
        r.add(self.css.Selector(*p))
      r.update(block)
      rules.append(r)
    try:
      rules.apply(other)
      expected = None
    except Exception, e:
      expected = e
    self.require(type(exc) is type(expected), 'wrong-error', 'dressing with %s: %r, its rules one by one: %r' % (s.path, exc, expected))
    if exc is None:
      self.require(shape(tree) == shape(other), 'dressed-differently', '%s: got %r, its rules give %r' % (s.content, shape(tree), shape(other)))

  def load(self, s):
    w = self.w
    me = w.current.id
    self.failed[me] = []
    before = len(self.disk.handles)
    w.rec('load', path=s.path)
    opens = w.faults.copy()
    try:
      b = self.css.load(s.path)
      exc = None
    except Exception, e:
      exc = e
    w.rec('loaded', path=s.path, exc=repr(exc))
    bad = self.failed[me]
    self.results.append((s.path, exc is None or repr(exc)))
    if exc is None:
      self.require(not bad, 'error-hidden', 'loading %s went on after %r' % (s.path, bad))
      self.kept.append((s, b))
      self.same(s, b, 'just loaded')
      self.count += 1
      if w.flip(0.2):
        b.rules[:] = []            # the caller may do what it likes with its own list
        self.kept.pop()
    elif isinstance(exc, (IOError, OSError)):
      ok = exc.errno in bad or (not bad and self.open_errno.get(s.path) == exc.errno and
                                w.faults.get('open-' + errno.errorcode[exc.errno]))
      self.require(ok, 'spurious-error', 'loading %s raised %r (injected: %r)' % (s.path, exc, bad))
    else:
      self.require(s.odd, 'wrong-error', 'loading %s raised %r' % (s.path, exc))

  def same(self, s, b, when):
    got = []
    for r in b.rules:
      self.require(r.css_path == s.path, 'wrong-path', '%s: a rule says it is from %s' % (s.path, r.css_path))
      got.append((r.lineno, tuple((x.element, x.name, x.value, x.data) for x in r.pattern), r.block))
    want = s.want
    if s.odd:      # lines outside the supported subset may or may not make a rule
      oddl = [i + 1 for i, l in enumerate(s.lines) if l.odd]
      got = [g for g in got if g[0] not in oddl]
    for i in range(max(len(got), len(want))):
      g = got[i] if i < len(got) else None
      x = want[i] if i < len(want) else None
      self.require(g == x, 'wrong-rules', '%s (%s), rule %d: expected %r, got %r in %r' % (s.path, when, i, x, g, s.content))

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))
    self.require(not self.disk.opened(), 'file-left-open', '%r' % [h.name for h in self.disk.opened()])

  def nontrivial(self):
    return self.count > 0 and any(s.want for s in self.sheets)

  def sample(self):
    return dict(fault=self.fault, results=self.results, sheets=[s.content[:200] for s in self.sheets])
