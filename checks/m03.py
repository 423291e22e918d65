# -*- coding: us-ascii -*-
"""M03: chequers are conserved and undo restores through any play history."""
import java.lang
import boards
import sess
from boards import BAR, OFF


class Aborted(Exception):
  pass


def dice_of(rolled):
  a, b = rolled
  d = dict((i, 0) for i in range(1, 7))
  if a == b:
    d[a] = 4
  else:
    d[a] = d[b] = 1
  return d


def tup(pm):
  return (pm.die, pm.src, pm.dest, pm.is_hitting)


class Table(object):
  """one board, the players' turns on it, and what it must look like"""
  def __init__(self, case, i):
    w = self.w = case.w
    self.case, self.i = case, i
    self.pos = boards.position(w, w.flip(0.3, 'home'))
    self.off = [15 - sum(self.pos[0]), 15 - sum(self.pos[1])]
    self.who = w.choose(2, 'first')
    self.turns = w.flip(0.04, 'plenty') and 30 or w.rand_int(1, 4, 'turns')
    self.n = w.rand_int(1, 10, 'ops')
    self.allowed = [self.pos]     # what the board may show right now
    self.done = False

  def play(self):
    case, w, m = self.case, self.w, self.case.m
    b = self.board = m.BoardEditor(position=self.pos, game_state=1, on_action=self.who, on_inner_action=self.who)
    self.made = True
    for t in range(self.turns):
      self.rolled = (w.rand_int(1, 6, 'die'), w.rand_int(1, 6, 'die'))
      b.rolled = self.rolled
      self.start = self.pos
      self.mf = m.MoveFactory(b)
      self.dice = dice_of(self.rolled)
      self.stack = []             # partial moves of the turn
      self.snaps = []             # position and dice before each
      self.check('turn begins')
      for k in range(self.n):
        what = w.weighted([6, 5, 3, 3, 1, 1, 1], 'what')
        if what == 0: self.ask()
        elif what == 1: self.move()
        elif what == 2: self.undo()
        elif what == 3: self.guessed()
        elif what == 4: self.resume()
        elif what == 5: self.refused()
        else: self.asked_undo()
      if w.flip(0.3, 'undo all'):
        self.undo(len(self.stack))
      self.turn_over()
    self.done = True

  def turn_over(self):
    b = self.board
    done = False
    if self.w.flip(0.4, 'by the factory'):
      # picks the dice up, or says they must be played and leaves everything alone
      try:
        self.mf.pickupdice()
        done = True
        self.w.probe('picked-up')
      except (StandardError, java.lang.RuntimeException), e:
        self.check('dice not picked up (%r)' % e)
        self.w.probe('not-picked-up')
    if not done:
      b.pickupdice()
    self.who = 1 - self.who
    self.require(b.rolled == (0, 0) and b.on_action == self.who and b.on_inner_action == self.who, 'turn-lost',
                 'after pickupdice: rolled %r, on action %r, inner %r' % (b.rolled, b.on_action, b.on_inner_action))
    self.rolled = None
    self.look('turn ends')

  def require(self, cond, kind, detail):
    self.case.require(cond, kind, 'table %d: %s' % (self.i, detail))

  def look(self, what):
    got = self.board.position
    self.require(got == self.pos, 'position-differs', '%s: %r instead of %r' % (what, got, self.pos))
    for who in (0, 1):
      self.require(len(got[who]) == 25 and min(got[who]) >= 0, 'negative', '%s: %r' % (what, got))
      self.require(sum(got[who]) + self.off[who] == 15, 'not-conserved', '%s: player %d has %d on the board and %d off in %r' %
                   (what, who, sum(got[who]), self.off[who], got))

  def check(self, what):
    self.look(what)
    mf = self.mf
    self.require(self.board.rolled == self.rolled, 'dice-differ', '%s: rolled %r, not %r' % (what, self.board.rolled, self.rolled))
    dice = dict((i, mf.available[i]) for i in range(1, 7))
    self.require(dice == self.dice, 'dice-differ', '%s: remaining %r, not %r' % (what, dice, self.dice))
    got = [tup(pm) for pm in mf.move]
    self.require(got == self.stack, 'move-differs', '%s: move in progress %r, not %r' % (what, got, self.stack))

  # ---- questions
  def ask(self):
    w, mf = self.w, self.mf
    src, dest = w.choose(26, 'src') - 1, w.choose(26, 'dest') - 1
    k = w.choose(6, 'question')
    if k == 0: q = lambda: mf.guess_your_single_pm_from_source(src)
    elif k == 1: q = lambda: mf.guess_your_single_pm_from_dest(dest)
    elif k == 2:
      # between chequers and reachable points more often than not
      mine = [p for p in range(25) if self.pos[self.who][p]]
      if mine and w.flip(0.8):
        src = w.pick(mine, 'from')
        dest = max(OFF, src - w.pick([1, 2, 3, 4, 5, 6, 8, 9, 12, 15, 18, 24], 'far'))
      if src <= dest:
        src, dest = dest + 1, src
      q = lambda: mf.guess_your_multiple_pms(src, dest)
    elif k == 3:
      if self.stack and w.flip(0.7):
        pm = w.pick(self.stack)
        src, dest = pm[2], w.pick(self.stack)[1]
      if src >= dest:
        src, dest = dest, src + 1
      q = lambda: mf.guess_your_multiple_partial_undoes(src, dest)
    elif k == 4: q = lambda: mf.guess_your_making_point(dest)
    else: q = mf.is_leagal_to_pickup_dice
    what = 'asked question %d (%d, %d)' % (k, src, dest)
    w.mix(what)
    r = None
    if self.case.aborts and w.flip(0.4, 'abort'):
      w.abort_after(w.rand_int(1, 120, 'line'), Aborted())
    try:
      try:
        r = q()
      except Aborted:
        what += ' (aborted)'
      except (StandardError, java.lang.NullPointerException), e:
        self.w.probe('question-fails')
        what += ' (%r)' % e
    finally:
      w.abort_off()
    self.case.asked += 1
    w.rec('asked', table=self.i, q=k)
    self.check(what)
    return r

  # ---- moves
  def apply(self, pms, how):
    """pms: (die, src, dest, hit); how makes them on the real board"""
    pos, dice, off = self.pos, dict(self.dice), list(self.off)
    stack, snaps = list(self.stack), list(self.snaps)
    allowed = [pos]
    for die, src, dest, hit in pms:
      snaps.append((pos, dict(dice), list(off)))
      stack.append((die, src, dest, hit))
      pos = boards.moved(pos, self.who, src, dest, hit)
      dice[die] -= 1
      if dest == OFF:
        off[self.who] += 1
      allowed.append(pos)
    self.w.mix('make %r' % (pms,))
    self.allowed = allowed
    how()
    self.pos, self.dice, self.off, self.stack, self.snaps = pos, dice, off, stack, snaps
    self.allowed = [pos]
    self.case.moves += len(pms)
    self.check('made %r' % (pms,))

  def possible(self, n):
    """partial moves within the remaining dice"""
    w = self.w
    out, pos, dice = [], self.pos, dict(self.dice)
    for i in range(n):
      pms, after = boards.partial_moves(w, pos, self.who, 1, [d for d in dice if dice[d]])
      if not pms:
        break
      out += pms
      dice[pms[0][0]] -= 1
      pos = after
    return out

  def move(self):
    w, m, mf = self.w, self.case.m, self.mf
    pms = self.possible(w.rand_int(1, 4, 'pms'))
    if not pms:
      return
    real = [m.PartialMove(*pm) for pm in pms]
    if w.flip(0.5, 'one by one'):
      def how():
        for pm in real: mf.append(pm)
    else:
      mv = m.Move()
      for pm in real: mv.append(pm)
      how = lambda: mf.add(mv)
    self.apply(pms, how)

  def guessed(self):
    """make what the factory suggests"""
    r = self.ask()
    m = self.case.m
    if isinstance(r, m.PartialMove):
      pms = [r]
    elif isinstance(r, (m.Move, list)):
      pms = list(r)
    else:
      return
    if not pms or [pm for pm in pms if pm.is_undo() or pm.is_dance()]:
      return
    # a suggestion is only made when it can be made: legality is another matter
    pos, dice = self.pos, dict(self.dice)
    for pm in pms:
      dice[pm.die] -= 1
      if dice[pm.die] < 0 or not pos[self.who][pm.src]:
        return
      pos = boards.moved(pos, self.who, *tup(pm)[1:])
      if min(pos[0]) < 0 or min(pos[1]) < 0:
        return
    mf = self.mf
    def how():
      for pm in pms: mf.append(pm)
    self.apply([tup(pm) for pm in pms], how)
    self.w.probe('guess-made')

  def undo(self, n=None):
    m, mf = self.case.m, self.mf
    if n is None:
      n = self.w.rand_int(1, 4, 'depth')
    n = min(n, len(self.stack))
    if not n:
      return
    self.allowed = [s[0] for s in self.snaps[-n:]] + [self.pos]
    for i in range(n):
      die, src, dest, hit = self.stack[-1 - i]
      mf.append(m.PartialMove(die, dest, src, hit))
    self.back(n, 'undid %d' % n)

  def back(self, n, what):
    self.pos, self.dice, self.off = self.snaps[-n]
    self.dice, self.off = dict(self.dice), list(self.off)
    del self.stack[-n:], self.snaps[-n:]
    self.allowed = [self.pos]
    self.case.undone += n
    self.check(what)

  def asked_undo(self):
    """undo through the factory's own answer, when it names the last partial moves in reverse order"""
    if not self.stack:
      return
    n = self.w.rand_int(1, len(self.stack), 'depth')
    last = self.stack[-n:]
    if last[-1][2] >= last[0][1]:
      return
    r = self.mf.guess_your_multiple_partial_undoes(last[-1][2], last[0][1])
    self.check('asked how to undo %r' % (last,))
    if isinstance(r, self.case.m.Move) and [tup(pm) for pm in r] == [(d, b, a, h) for d, a, b, h in reversed(last)]:
      self.allowed = [s[0] for s in self.snaps[-n:]] + [self.pos]
      self.mf.add(r)
      self.back(n, 'undid %r as suggested' % (last,))
      self.w.probe('suggested-undo')

  def resume(self):
    """another factory takes the turn over; the old one is left behind"""
    m, old = self.case.m, self.mf
    self.mf = m.MoveFactory(self.board, old.move, old.available)
    self.check('resumed')
    pms = self.possible(1)
    if pms:
      before, dice = [tup(pm) for pm in old.move], repr(old.available)
      self.apply(pms, lambda: self.mf.append(m.PartialMove(*pms[0])))
      self.require([tup(pm) for pm in old.move] == before and repr(old.available) == dice, 'resumed-shares',
                   'the factory resumed from changed from %r %s to %r %r' % (before, dice, list(old.move), old.available))

  def refused(self):
    """a partial move with a die that is not there"""
    gone = [d for d in self.dice if not self.dice[d]]
    pms, pos = boards.partial_moves(self.w, self.pos, self.who, 1, gone)
    if not pms:
      return
    try:
      self.mf.append(self.case.m.PartialMove(*pms[0]))
    except (Exception, java.lang.RuntimeException):    # what a bare raise gives in Jython
      pass
    else:
      self.require(False, 'not-refused', '%r was made with dice %r' % (pms, self.dice))
    self.check('refused %r' % (pms,))


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.tables = [Table(self, i) for i in range(w.weighted([4, 2]) + 1)]
    self.watchers = w.flip(0.5, 'watched')
    self.aborts = w.flip(0.4, 'aborts')
    self.knobs = dict(preempts=w.pick([0, 4, 12, 30]), gap=w.pick([20, 80, 400]), p_switch=w.pick([0, 64]))
    self.asked = self.moves = self.undone = self.seen = 0

  def main(self):
    w = self.w
    self.m = self.env.load('bglib.model')
    w.tune(**self.knobs)
    T = self.env.sim['threading']
    ts = [T.Thread(target=t.play) for t in self.tables]
    if self.watchers:
      ts += [T.Thread(target=self.watch, args=(t,)) for t in self.tables]
    for t in ts: t.start()
    for t in ts: t.join()

  def watch(self, t):
    """draws the board whenever it gets a turn: it sees the game, never a question"""
    w = self.w
    for i in range(60):
      if t.done:
        return
      w.switch('watch')
      if hasattr(t, 'made'):
        got = t.board.position
        self.seen += 1
        self.require(got in t.allowed, 'seen-differs', 'table %d: a reader saw %r while the game shows %r' % (t.i, got, t.allowed))
      w.sleep(0.0)

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.asked > 0 and self.moves > 1 and self.undone > 0

  def sample(self):
    return dict(asked=self.asked, moves=self.moves, undone=self.undone, seen=self.seen,
                tables=[dict(start=t.pos, turns=t.turns) for t in self.tables])
