# -*- coding: us-ascii -*-
"""M01: a frozen board never changes and an editor's edits stay its own."""
import boards
import sess
from boards import FIELDS

DEFAULTS = dict(position=(boards.START, boards.START), cube_in_logarithm=0, cube_owner=3, on_action=0, crawford=False,
                game_state=0, on_inner_action=0, doubled=False, resign_offer=0, rolled=(0, 0), match_length=0,
                score=(0, 0))


def value(w, key):
  if key == 'position':
    return boards.position(w)
  if key in ('rolled', 'score'):
    return (w.choose(7), w.choose(7))
  if key in ('crawford', 'doubled'):
    return w.flip(0.5)
  if key == 'cube_owner':
    return w.pick([0, 1, 3])
  if key in ('on_action', 'on_inner_action'):
    return w.choose(2)
  return w.choose(5)


def some(w):
  keys = [k for k in FIELDS if w.flip(0.3, k)]
  return dict((k, value(w, k)) for k in keys)


def flipped(d):
  d = dict(d)
  other = {0: 1, 1: 0, 3: 3}
  for k in ('cube_owner', 'on_action', 'on_inner_action'):
    d[k] = other[d[k]]
  for k in ('score', 'position'):
    d[k] = (d[k][1], d[k][0])
  return d


class Mine(object):
  """an editor, what it must look like, and the lock its owner holds while using it"""
  def __init__(self, case, editor, model):
    self.editor, self.model = editor, model
    self.lock = case.env.sim['threading'].Lock()


class Aborted(Exception):
  pass


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.threads = w.rand_int(1, 4, 'threads')
    self.n = w.flip(0.04, 'plenty') and 60 or w.rand_int(2, 14, 'ops')
    self.aborts = w.flip(0.4, 'aborts')
    self.watchers = w.pick([0, 0, 4], 'watchers')
    self.knobs = dict(preempts=w.pick([0, 2, 6, 15]), gap=w.pick([20, 60, 300]), p_switch=w.pick([0, 64, 128]))
    self.frozen = []          # (board, fields)
    self.editors = []
    self.edits = self.refused = 0
    self.froms = 0

  def main(self):
    w = self.w
    self.m = m = self.env.load('bglib.model')
    self.c = self.env.load('bglib.model.constants')
    w.tune(**self.knobs)
    T = self.env.sim['threading']
    ts = [T.Thread(target=self.user, args=(i,)) for i in range(self.threads)]
    for t in ts: t.start()
    for t in ts: t.join()
    self.look()
    # a board made in another program from the same fields is the same board
    for b, d in self.frozen[:3]:
      self.require(b == m.Board(**d) and not b != m.Board(**d), 'not-equal', '%r differs from a board made of its fields' % (d,))

  def check_board(self, b, d, what):
    got = boards.fields_dict(b)
    self.require(got == d, 'board-changed', '%s: %r is not what was frozen: %r' % (what, diff(got, d), diff(d, got)))

  def check_editor(self, e, what):
    got = boards.fields_dict(e.editor)
    self.require(got == e.model, 'editor-differs', '%s: editor has %r, its edits give %r' %
                 (what, diff(got, e.model), diff(e.model, got)))

  def look(self):
    for b, d in self.frozen:
      self.check_board(b, d, 'at the end')
    for e in self.editors:
      self.check_editor(e, 'at the end')

  def user(self, i):
    w, m = self.w, self.m
    mine = []
    for k in range(self.n):
      what = w.weighted(mine and [2, 2, 2, 6, 3, 2, 3, 2, 2, 2, self.watchers] or [3, 2, 2], 'what')
      w.rec('op', user=i, what=what)
      w.mix('op %d' % what)
      if what == 0:             # a new editor from nothing
        kw = some(w)
        mine.append(self.new(Mine(self, m.BoardEditor(**kw), dict(DEFAULTS, **kw))))
      elif what == 1:           # from a board
        if self.frozen:
          b, d = w.pick(self.frozen)
        else:
          d = dict(DEFAULTS, **some(w))
          b = m.Board(**d)
          self.frozen.append((b, d))
        kw = w.flip(0.3) and some(w) or {}
        self.froms += 1
        mine.append(self.new(Mine(self, m.BoardEditor(b, **kw), dict(d, **kw))))
      elif what == 2:           # from an editor, anybody's
        if self.editors:
          e = w.pick(self.editors)
          e.lock.acquire()
          try:
            kw = w.flip(0.3) and some(w) or {}
            x = m.BoardEditor(e.editor, **kw)
            d = dict(e.model, **kw)
          finally:
            e.lock.release()
          self.froms += 1
          mine.append(self.new(Mine(self, x, d)))
      elif what == 6:           # freeze anybody's
        e = w.pick(self.editors)
        e.lock.acquire()
        try:
          b, d = e.editor.freeze(), dict(e.model)
        finally:
          e.lock.release()
        self.frozen.append((b, d))
        self.check_board(b, d, 'just frozen')
      elif what == 10:
        # look at somebody's editor while an edit may be under way: what is seen is
        # whatever it is, but the snapshot stays that and the editor takes no notice
        b = w.pick(self.editors).editor.freeze()
        self.frozen.append((b, boards.fields_dict(b)))
      elif what == 7 and self.frozen:
        self.abuse(*w.pick(self.frozen))
      elif what == 8 and self.frozen:
        (a, da), (b, db) = w.pick(self.frozen), w.pick(self.frozen)
        self.require((a == b) == (da == db), 'equality', '%r == %r gives %r' % (da, db, a == b))
        self.require((a != b) == (da != db), 'equality', '%r != %r gives %r' % (da, db, a != b))
        self.check_board(a, da, 'later')
      elif what == 9:
        e = w.pick(self.editors)
        e.lock.acquire()
        try:
          self.check_editor(e, 'while others work')
        finally:
          e.lock.release()
      else:
        e = w.pick(mine)
        e.lock.acquire()
        try:
          self.edit(e)
        finally:
          e.lock.release()

  def new(self, e):
    self.check_editor(e, 'just made')
    self.editors.append(e)
    return e

  def edit(self, e):
    w, ed = self.w, e.editor
    d = e.model
    k = w.weighted([5, 3, 3, 2, 2], 'edit')
    if k == 0:
      key = w.pick(FIELDS, 'key')
      v = value(w, key)
      fn, want = (lambda: setattr(ed, key, v)), dict(d, **{key: v})
    elif k == 1:
      fn, want = ed.flip, flipped(d)
    elif k == 2:
      pms, pos = boards.partial_moves(w, d['position'], d['on_action'], w.rand_int(1, 3))
      pms = [self.m.PartialMove(*pm) for pm in pms]
      mv = self.m.Move()
      mv._pms = pms
      if w.flip(0.5):
        fn = lambda: ed.make(mv)
      else:
        fn = lambda: [ed.make_partial_move(pm) for pm in pms]
      want = dict(d, position=pos)
    elif k == 3:
      want = dict(d, rolled=(0, 0), on_action=1 - d['on_action'], on_inner_action=1 - d['on_inner_action'])
      fn = ed.pickupdice
    else:
      # an operation that is refused
      who = d['on_action']
      fn, want = w.pick([lambda: ed.drop(who), lambda: ed.accept_resign(who), lambda: ed.take(who),
                         lambda: ed.reject_resign(who), lambda: ed.double(1 - who)]), d
      if d['on_inner_action'] == who and not d['resign_offer'] or d['game_state'] != 1:
        try:
          fn()
        except AssertionError:
          self.refused += 1
        else:
          self.require(False, 'not-refused', 'accepted with %r' % (d,))
      return
    if self.aborts and w.flip(0.3, 'abort'):
      w.abort_after(w.rand_int(1, 25, 'line'), Aborted())
      try:
        fn()
      except Aborted:
        # how far it came is this editor's own affair
        e.model = boards.fields_dict(ed)
        for key in FIELDS:
          self.require(e.model[key] is not None, 'editor-differs', 'aborted: %r' % (e.model,))
        return
      finally:
        w.abort_off()
    else:
      fn()
    self.edits += 1
    e.model = want
    self.check_editor(e, 'after an edit')

  def abuse(self, b, d):
    w = self.w
    key = w.pick(FIELDS)
    v = value(w, key)
    k = w.choose(4, 'abuse')
    def set_(): setattr(b, key, v)
    def del_(): delattr(b, key)
    def new_(): b.colour = v
    def inner(): b.position[0][3] = 7
    try:
      [set_, del_, new_, inner][k]()
    except (TypeError, AttributeError):
      self.refused += 1
    except Exception, e:
      self.require(False, 'not-refused', 'modifying a board raised %r' % e)
    else:
      self.require(False, 'not-refused', 'modifying %s of a board was accepted' % key)
    self.check_board(b, d, 'after a refused change')

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.edits > 0 and self.froms > 0 and len(self.frozen) > 1

  def sample(self):
    return dict(frozen=len(self.frozen), editors=len(self.editors), edits=self.edits, refused=self.refused,
                threads=self.threads)


def diff(a, b):
  return dict((k, a[k]) for k in FIELDS if a[k] != b[k])
