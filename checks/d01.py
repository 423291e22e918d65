# -*- coding: us-ascii -*-
"""D01: drawings are independent of each other and of earlier failed drawings."""
import errno
import types
import sess
import loader
from kernel import Violation
import boards

MAX_STEPS = 6000000
THEMES = ['theme', 'other/place']


def sheet(w):
  """a style sheet whose drawing is well defined, in one of several styles"""
  font = w.flip(0.6, 'font')
  images = w.pick(['none', 'some', 'all'], 'images')
  out = ['board {x: 0; y: 0; width: 341; height: 262; background: red}']
  if font:
    out.append('board {font:uri("Cake.ttf")}')
  def img(name):
    return images == 'all' or images == 'some' and w.flip(0.5, name)
  out.append('match {x: 291; y: 0; width: 50; height: 232; background:#ee40d6}')
  out.append('length {x: 316; y: 93; width: 25; height: 46 ; color:#345c4f}')
  out.append('crawford {x: 291; y: 93; width: 25; height: 46; color:#345c4f}')
  out.append('score {width: 50; height: 93%s}' % ('; image: uri("score.jpg")' if img('score') else ''))
  out.append('score[player=you] {x: 291; y:139; color: #e0d010}')
  out.append('score[player=him] {x: 291; y: 0 ; color: #b41d1f}')
  out.append('action{width: 341; height: 30; x:0; y:232; background: #ee40d6; color: white}')
  out.append('action[player=you] {color: #e0d010}')
  out.append('position {x: 0; y: 0; width: 291; height: 232; background: #ee40d5}')
  out.append('point {width: 18; height:88; max_count: 5}'.replace('; max_count: 5', ''))
  if img('point'):
    out.append('point[parity=odd] {image: uri("odd.jpg")}')
    out.append('point[parity=even] {image: uri("even.jpg")}')
  else:
    out.append('point[parity=odd] {color: #e026b6}')
    out.append('point[parity=even] {color: #e670d8}')
  for i in range(1, 25):
    if i == 1 or w.choose(4, 'point') < 3:
      out.append('point:data(%d) {x: %d; y: %d%s}' % (i, 20 + (i - 1) % 12 * 18, 139 if i < 13 else 5,
                                                     '; flip: True' if i > 12 else ''))
    else:
      out.append('point:data(%d) {x: 3; y: 4}' % i)
  out.append('chequer {width: 16; height: 16; x_offset: 0; y_offset: 16; max_count: %d}' % w.pick([5, 3, 15]))
  out.append('chequer[player=you] {color: white}')
  out.append('chequer[player=him] {color: green}')
  if img('chequer'):
    out.append('chequer[player=you]:data(2) {image: uri("two-you.jpg")}')
    out.append('point[parity=odd] chequer[player=him] {image: uri("odd-him.png")}')
  if w.flip(0.3):
    out.append('chequer {x_offset2: 3; y_offset2: 7; hide_count: True}')
  out.append('home {x: 270; y: 10; width: 18; height: 90}')
  out.append('home[player=him] {y: 130}')
  out.append('bar {x: 130; y: 10; width: 18; height: 90}')
  out.append('field {x: 40; y: 100; width: 60; height: 30}')
  out.append('field[player=him] {x: 150%s}' % ('; image: uri("field.jpg"); flip: True' if img('field') else ''))
  out.append('cubeholder {x: 2; y: 100; width: 20; height: 20}')
  out.append('cube {width: 20; height: 20; initialCube: 64; %s}' %
             ('image: uri("cube.png")' if img('cube') or not font else 'color: black'))
  out.append('die {x: 45; y: 102; width: 24; height: 24; background: blue; color: white; diestyle: %s; eyesize: 4}' %
             ('numeric' if font and w.flip(0.3) else 'dot'))
  out.append('die[id=left] {x: 75}')
  if img('die'):
    out.append('die:data(6) {image: uri("six.jpg")}')
    out.append('die:data(1) {image: uri("one.jpg"); flip: True}')
  out.append('resign {width: 10; height: 10; x_offset: 4; y_offset: 1; %s}' %
             ('image: uri("flag.jpg")' if img('resign') or not font else 'color: black'))
  out.append('top_frame {x: 0; y: 0; width: 291; height: 5}')
  out.append('bottom_frame {x: 0; y: 227; width: 291; height: 5}')
  return '\n'.join(out) + '\n'


FILES = ['score.jpg', 'odd.jpg', 'even.jpg', 'two-you.jpg', 'odd-him.png', 'field.jpg', 'cube.png', 'six.jpg',
         'one.jpg', 'flag.jpg', 'Cake.ttf']


class Injected(IOError):
  pass


class Faults(object):
  """decides which of the loads and drawing operations of a task fail"""
  def __init__(self, w):
    self.w = w
    self.on = False
    self.rate = w.pick([0.0, 0.01, 0.05, 0.2], 'fault rate')
    self.nth = {}             # task -> countdown
    self.hit = {}             # task -> injected errors during the drawing in progress

  def at(self, what):
    w = self.w
    if not self.on:
      return
    w.op(what)
    me = w.current.id
    n = self.nth.get(me)
    if n is not None:
      self.nth[me] = n - 1
    if n == 0 or self.rate and w.flip(self.rate, what):
      e = w.pick([Injected(errno.EIO, 'simulated ' + what), Injected(errno.EMFILE, 'simulated ' + what),
                  MemoryError('simulated ' + what)], 'which')
      self.hit.setdefault(me, []).append(e)
      w.fault(what + '-fails')
      raise e


def pil(faults, disk):
  """stand-ins for PIL's Image, ImageDraw and ImageFont; pictures are lists of operations"""
  class Img(object):
    def __init__(self, mode, size, desc):
      self.mode, self.size, self.desc = mode, size, desc
      self.ops = []
    def transpose(self, how):
      faults.at('transpose')
      return Img(self.mode, self.size, self.desc + ('flip', how))
    def resize(self, size):
      faults.at('decode')           # lazily decoded: a torn file shows here
      return Img(self.mode, tuple(size), self.desc + ('resize', tuple(size)))
    def paste(self, img, box, mask=None):
      faults.at('paste')
      self.ops.append(('paste', img.desc, tuple(box), mask is not None and mask.desc))
    def __repr__(self):
      return repr((self.mode, self.size, self.desc, self.ops))
  class Pen(object):
    def __init__(self, img):
      self.img = img
    def text(self, pos, text, font=None, fill=None):
      faults.at('text')
      self.img.ops.append(('text', pos, text, font.desc, fill))
    def ellipse(self, box, fill=None):
      faults.at('ellipse')
      self.img.ops.append(('ellipse', tuple(box), fill))
    def polygon(self, pts, fill=None):
      faults.at('polygon')
      self.img.ops.append(('polygon', tuple(pts), fill))
    def rectangle(self, box, fill=None):
      faults.at('rectangle')
      self.img.ops.append(('rect', tuple(box), fill))
  class Font(object):
    def __init__(self, uri, size):
      self.desc = (uri, size)
    def getsize(self, text):
      return len(text) * self.desc[1] // 2, self.desc[1]
  Image = types.ModuleType('Image')
  Image.FLIP_TOP_BOTTOM = 1
  Image.Image = Img
  def new(mode, size, *a):
    faults.at('new')
    return Img(mode, tuple(size), ('canvas',))
  def open_(uri):
    faults.at('open-image')
    if uri not in disk:
      raise IOError(errno.ENOENT, 'No such file', uri)
    return Img('RGBA' if uri.endswith('png') else 'RGB', (64, 64), (uri,))
  Image.new, Image.open = new, open_
  ImageDraw = types.ModuleType('ImageDraw')
  ImageDraw.Draw = Pen
  ImageFont = types.ModuleType('ImageFont')
  def truetype(uri, size):
    faults.at('open-font')
    if uri not in disk:
      raise IOError(errno.ENOENT, 'No such file', uri)
    return Font(uri, size)
  ImageFont.truetype = truetype
  return dict(Image=Image, ImageDraw=ImageDraw, ImageFont=ImageFont)


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 3, 8, 30]), gap=w.pick([30, 400, 4000]), p_switch=w.pick([0, 16, 64]), stall=1e18)
    self.css = [sheet(w) for i in range(w.pick([1, 1, 2], 'themes'))]
    if len(self.css) > 1 and w.flip(0.5, 'same rules'):
      self.css[1] = self.css[0]
    self.faults = Faults(w)
    self.disk = set(t + '/' + f for f in FILES for t in THEMES)
    self.missing = None
    if w.flip(0.15, 'missing file'):
      self.missing = w.pick(THEMES[:len(self.css)]) + '/' + w.pick(FILES)
      self.disk.discard(self.missing)
    self.setup(self.env)
    self.boards = [boards.drawable(w) for i in range(w.rand_int(1, 3, 'boards'))]
    self.sane = len(self.boards)
    if w.flip(0.2, 'undrawable'):
      b = dict(w.pick(self.boards))
      b.update(w.pick([dict(on_action=3), dict(cube_owner=2), dict(game_state=2, on_inner_action=3)]))
      self.boards.append(b)
    self.sizes = w.pick([[(400, 400)], [(400, 400), (200, 120)], [(341, 262), (100, 300)]], 'sizes')
    self.want = {}
    self.kept = []
    self.good = self.failed = 0

  def setup(self, env):
    env.use_disk()
    for t, text in zip(THEMES, self.css):
      env.disk.files[t + '/default.css'] = text
    env.sim.update(pil(self.faults, self.disk))

  def renderer(self, env, kind, css):
    """kind: 'text' (the library's own text renderer) or 'pil'"""
    if kind == 'pil':
      return env.load('bglib.image.PIL').Draw(css)
    faults = self.faults
    Draw = env.load('bglib.image.draw').Draw
    class Text(Draw):
      def load_image(self, uri, size, flip):
        faults.at('open-image')
        return Draw.load_image(self, uri, size, flip)
      def paste_image(self, src, position, size):
        faults.at('paste')
        return Draw.paste_image(self, src, position, size)
      def draw_text(self, *a):
        faults.at('text')
        return Draw.draw_text(self, *a)
    return Text(css)

  def board(self, env, i):
    kw = self.boards[i]
    return env.load('bglib.model.board').Board(**kw)

  def expect(self, theme, kind, i, size):
    """what a fresh renderer of a fresh program draws alone"""
    k = theme, kind, i, size
    if k not in self.want:
      env = loader.Env(self.w)
      self.setup(env)
      css = env.load('bglib.image.css').load(THEMES[theme] + '/default.css')
      try:
        self.want[k] = repr(self.renderer(env, kind, css).draw(self.board(env, i), size))
      except (AssertionError, AttributeError, IOError), e:
        self.want[k] = e
        self.w.probe('undrawable board: ' + type(e).__name__)
        self.require(i >= self.sane or self.missing and self.missing.startswith(THEMES[theme] + '/'), 'undrawable',
                     'a fresh %s renderer cannot draw board %d at %r: %r' % (kind, i, size, e))
    return self.want[k]

  def main(self):
    w = self.w
    kinds = w.pick([['pil'], ['pil', 'text'], ['text']], 'renderers')
    plan = []
    for t in range(w.rand_int(1, 3, 'threads')):
      plan.append([(w.choose(len(self.boards)), w.pick(self.sizes)) for j in range(w.rand_int(1, 4, 'drawings'))])
      plan[-1].append((w.choose(len(self.css), 'theme'), w.pick(kinds)))
    for d in plan:
      for i, size in d[:-1]:
        self.expect(d[-1][0], d[-1][1], i, size)
    css = [self.env.load('bglib.image.css').load(t + '/default.css') for t, text in zip(THEMES, self.css)]
    self.env.load('bglib.image.PIL')
    self.env.load('bglib.model.board')
    self.env.load('bglib.model.boardeditor')
    self.faults.on = True
    T = self.env.sim['threading']
    ts = [T.Thread(target=self.draws, args=(css[d[-1][0]], d[:-1], d[-1][0], d[-1][1])) for d in plan]
    for t in ts: t.start()
    for t in ts: t.join()
    for what, got, want in self.kept:
      self.require(repr(got) == want, 'drawing-changed-later', '%s changed after it was returned' % what)

  def draws(self, css, jobs, theme, kind):
    w = self.w
    r = self.renderer(self.env, kind, css)
    editor = None
    for n, (i, size) in enumerate(jobs):
      b = self.board(self.env, i)
      if w.flip(0.3, 'editor'):
        BoardEditor = self.env.load('bglib.model.boardeditor').BoardEditor
        if editor is not None and w.flip(0.6, 'the same again'):
          for k in boards.FIELDS:
            setattr(editor, k, getattr(b, k))
          b = editor
        else:
          b = editor = BoardEditor(b)
      before = boards.fields(b)
      me = w.current.id
      self.faults.hit[me] = []
      self.faults.nth[me] = w.skewed(60, 'nth') if w.flip(0.3, 'one fault') else None
      w.rec('draw', kind_=kind, theme=theme, board=i, size=size)
      try:
        got, exc = r.draw(b, size), None
      except Exception, e:
        got, exc = None, e
      except MemoryError, e:
        got, exc = None, e
      hit = self.faults.hit[me]
      w.rec('drawn', exc=repr(exc), injected=repr(hit))
      what = 'drawing %d of a %s renderer (board %d, size %s)' % (n, kind, i, size)
      self.require(boards.fields(b) == before, 'board-changed', '%s changed the board' % what)
      want = self.want[theme, kind, i, size]
      if hit:
        self.require(exc is not None, 'error-hidden', '%s returned a picture though %r' % (what, hit))
        self.require(exc in hit, 'other-error', '%s raised %r, injected %r' % (what, exc, hit))
        self.failed += 1
      elif isinstance(want, Exception):
        self.require(exc is not None, 'error-hidden', '%s succeeded; a fresh renderer raises %r' % (what, want))
        self.require(type(exc) is type(want), 'other-error', '%s raised %r; a fresh renderer %r' % (what, exc, want))
        self.failed += 1
      else:
        self.require(exc is None, 'spurious-error', '%s raised %r; a fresh renderer draws it' % (what, exc))
        self.require(repr(got) == want, 'drawing-differs', '%s: %s' % (what, diff(repr(got), want)))
        self.kept.append((what, got, want))
        self.good += 1

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.good + self.failed > 1 and self.good > 0

  def sample(self):
    return dict(boards=[repr(b)[:200] for b in self.boards], sizes=self.sizes, good=self.good, failed=self.failed,
                missing=self.missing, css=self.css[0][-300:], themes=len(self.css))


def diff(a, b):
  i = 0
  while i < min(len(a), len(b)) and a[i] == b[i]:
    i += 1
  return 'at %d: ...%s... instead of ...%s...' % (i, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])
