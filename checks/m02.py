# -*- coding: us-ascii -*-
"""M02: a double or resignation between two players is settled exactly once."""
import boards
import sess
from boards import FIELDS
from kernel import Waiter

REQUESTS = ['double', 'take', 'drop', 'resign', 'accept', 'reject', 'roll', 'done', 'redouble']


class Aborted(Exception):
  pass


def legal(d, req, who, arg=None):
  """the rules, written from the property"""
  if d['game_state'] != 1:
    return False
  mine, his_answer = d['on_action'] == who == d['on_inner_action'], d['on_action'] != who and d['on_inner_action'] == who
  if req == 'roll':
    return mine and d['resign_offer'] == 0 and d['rolled'] == (0, 0)
  if req in ('done', 'move'):
    return mine and d['resign_offer'] == 0 and d['rolled'] != (0, 0)
  if req == 'double':
    return (mine and d['rolled'] == (0, 0) and not d['crawford'] and not d['doubled'] and d['cube_owner'] in (3, who) and
            (d['match_length'] == 0 or d['score'][who] < d['match_length'] - 2 ** d['cube_in_logarithm']))
  if req in ('take', 'drop'):
    return his_answer and d['doubled'] and d['resign_offer'] == 0
  if req == 'redouble':
    return legal(d, 'take', who) and d['match_length'] == 0
  if req == 'resign':
    return mine and arg in (1, 2, 3)
  return his_answer and d['resign_offer'] in (1, 2, 3)


def step(d, req, who, arg):
  d = dict(d)
  opp, cube = 1 - who, 2 ** d['cube_in_logarithm']
  score = list(d['score'])
  if req == 'double':
    d.update(doubled=True, on_inner_action=opp)
  elif req == 'take':
    d.update(on_inner_action=opp)
  elif req == 'drop':
    score[opp] += cube
    d.update(game_state=4, score=tuple(score))
  elif req == 'resign':
    d.update(resign_offer=arg, on_inner_action=opp)
  elif req == 'accept':
    score[who] += cube * d['resign_offer']
    d.update(game_state=3, score=tuple(score))
  elif req == 'reject':
    d.update(resign_offer=0, on_inner_action=opp)
  elif req == 'roll':
    d.update(rolled=arg)
  elif req == 'done':
    d.update(rolled=(0, 0), on_action=1 - d['on_action'], on_inner_action=1 - d['on_inner_action'])
  return d


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.games = w.rand_int(1, 3, 'games')
    self.n = w.flip(0.04, 'plenty') and 120 or w.rand_int(3, 25, 'requests')
    self.dup = w.pick([0.0, 0.2, 0.6], 'dup')
    self.loss = w.pick([0.0, 0.0, 0.2], 'loss')
    self.lag = w.pick([0.0, 0.5, 3.0], 'lag')
    self.crash = w.pick([0.0, 0.0, 0.15], 'crash')
    self.stale = w.pick([0.1, 0.5], 'unreasonable')
    self.knobs = dict(preempts=0, gap=300, p_switch=w.pick([0, 64]))
    ml = w.pick([0, 0, 1, 3, 7, 25])
    self.start = dict(position=(boards.START, boards.START), match_length=ml, score=(w.choose(ml or 9), w.choose(ml or 9)))
    self.inbox, self.wait = [], []
    self.over = False
    self.accepted, self.refused, self.settled = [], 0, []

  def fresh(self):
    w = self.w
    me = w.choose(2, 'first')
    return dict(game_state=1, on_action=me, on_inner_action=me, rolled=(0, 0), doubled=False, resign_offer=0,
                cube_in_logarithm=w.weighted([5, 3, 2, 1, 1, 1, 1]), cube_owner=w.pick([3, 3, 0, 1]),
                crawford=w.flip(0.15) and self.start['match_length'] > 0)

  def main(self):
    w = self.w
    self.m = m = self.env.load('bglib.model')
    w.tune(**self.knobs)
    for g in range(self.games):
      # not started: everything is refused
      e = m.BoardEditor(**self.start)
      self.model = boards.fields_dict(e)
      self.want(all(getattr(e, k) == v for k, v in self.start.items()), 'state-differs', 'a new board %r' % (self.model,))
      if w.flip(0.3, 'early'):
        self.disk = e.freeze()
        self.serve(('double', w.choose(2), None))
        self.serve(('resign', w.choose(2), 1))
        self.serve(('roll', w.choose(2), (3, 1)))
      e = m.BoardEditor(e)
      for k, v in sorted(self.fresh().items()):
        setattr(e, k, v)
        self.model[k] = v
      self.editor, self.disk = e, e.freeze()
      self.settled_now = 0
      self.left = self.n
      T = self.env.sim['threading']
      ts = [T.Thread(target=self.player, args=(p,)) for p in (0, 1)]
      self.over = False
      srv = T.Thread(target=self.server)
      srv.start()
      for t in ts: t.start()
      for t in ts: t.join()
      w.sleep(2 * self.lag + 1.0)
      # whoever is on turn can always go on once messages arrive again
      self.progress()
      self.over = True
      for x in list(self.wait): x.fire('over')
      srv.join()
      self.settled.append(self.settled_now)
      self.start = dict(self.start, score=self.model['score'])
      ml = self.start['match_length']
      if ml and max(self.model['score']) >= ml:
        break

  def player(self, me):
    """asks for what it believes to be right, or for anything"""
    w = self.w
    while self.left > 0:
      self.left -= 1
      w.sleep(w.pick([0.0, 0.1, 1.0]))
      d = self.model
      can = [r for r in REQUESTS if legal(d, r, me, 1)]
      if can and not w.flip(self.stale, 'unreasonable'):
        req = w.pick(can)
      else:
        req = w.pick(REQUESTS)
      arg = None
      if req == 'resign':
        arg = w.pick([1, 2, 3, 0, 4])
      elif req == 'roll':
        arg = (w.rand_int(1, 6), w.rand_int(1, 6))
      who = 1 - me if w.flip(0.05, 'forged') else me
      self.post((req, who, arg))

  def post(self, msg):
    w = self.w
    if self.loss and w.flip(self.loss, 'loss'):
      w.fault('request-lost')
      return
    n = 1
    while self.dup and n < 4 and w.flip(self.dup, 'dup'):
      w.fault('request-duplicated')
      n += 1
    for i in range(n):
      d = self.lag and w.rand_int(0, 10) * self.lag / 10
      if d:
        w.fault('request-delayed')
      w.after(d, lambda: self.arrive(msg), 'request')

  def arrive(self, msg):
    self.inbox.append(msg)
    for x in list(self.wait): x.fire('mail')

  def server(self):
    w = self.w
    while True:
      while not self.inbox:
        if self.over:
          return
        w.wait(self.wait, 'inbox')
      self.serve(self.inbox.pop(0))

  def serve(self, msg):
    req, who, arg = msg
    w = self.w
    d = self.model
    ok = legal(d, req, who, arg)
    e = self.editor if d['game_state'] else self.m.BoardEditor(self.disk)
    if self.crash and w.flip(self.crash, 'crash'):
      # the server dies somewhere in this request and comes back with the board it last wrote down
      w.abort_after(w.rand_int(1, 14, 'line'), Aborted(), 'server-crash')
    try:
      try:
        self.apply(e, req, who, arg)
        got = True
      except AssertionError:
        got = False
      except Aborted:
        self.restart()
        return
    finally:
      w.abort_off()
    w.rec('request', req=req, who=who, arg=arg, ok=got)
    self.want(got == ok, 'wrongly-%s' % (got and 'accepted' or 'refused'), '%s(%s, %s) with %r' % (req, who, arg, d))
    if got:
      self.model = step(d, req, who, arg)
      self.accepted.append(msg)
      if req in ('drop', 'accept'):
        self.settled_now += 1
        self.want(self.settled_now == 1, 'settled-twice', '%r' % (self.accepted[-6:],))
    else:
      self.refused += 1
    self.same(e, '%s(%s, %s) after %r' % (req, who, arg, d))
    self.disk = e.freeze()
    self.want(boards.fields_dict(self.disk) == self.model, 'state-differs', 'frozen: %r' % (boards.fields_dict(self.disk),))

  def want(self, cond, kind, detail):
    if not cond:
      self.w.fail(kind, detail)

  def restart(self):
    self.editor = self.m.BoardEditor(self.disk)
    self.same(self.editor, 'restarted')

  def apply(self, e, req, who, arg):
    if req == 'double': e.double(who)
    elif req == 'take': e.take(who)
    elif req == 'drop': e.drop(who)
    elif req == 'resign': e.offer_resign(who, arg)
    elif req == 'accept': e.accept_resign(who)
    elif req == 'reject': e.reject_resign(who)
    elif req == 'roll':
      assert e.is_leagal_to_roll(who)
      e.rolled = arg
    elif req == 'done':
      assert e.is_leagal_to_move(who)
      e.pickupdice()
    else:
      assert e.is_leagal_to_redouble(who)
      e.redouble()

  def same(self, e, what):
    got, d = boards.fields_dict(e), self.model
    self.want(got == d, 'state-differs', '%s: %r instead of %r' %
              (what, dict((k, got[k]) for k in FIELDS if got[k] != d[k]), dict((k, d[k]) for k in FIELDS if got[k] != d[k])))
    for who in (0, 1):
      for b in (e, e.freeze()):
        for req, f in (('roll', b.is_leagal_to_roll), ('move', b.is_leagal_to_move), ('take', b.is_cube_take_or_pass),
                       ('redouble', b.is_leagal_to_redouble), ('resign', b.is_leagal_to_resign),
                       ('accept', b.is_to_accept_resign), ('double', b.is_leagal_to_double)):
          try:
            got = bool(f(who))
          except AssertionError:
            got = False
          ok = legal(d, req, who, 1)
          self.want(got == ok, 'legality-differs', 'asked whether %s may %s: %r, with %r' % (who, req, got, d))
    self.want(d['on_action'] in (0, 1) and d['on_inner_action'] in (0, 1), 'turn-lost', repr(d))

  def progress(self):
    w = self.w
    for i in range(6):
      d = self.model
      if d['game_state'] != 1:
        return
      can = [(r, p) for r in ('drop', 'accept', 'done', 'roll') for p in (0, 1) if legal(d, r, p, 1)]
      self.want(can, 'nobody-can-go-on', repr(d))
      if not can:
        return
      self.arrive(can[0] + ((2, 1),))
      crash, self.crash = self.crash, 0
      w.sleep(0.1)
      self.crash = crash
    w.probe('game-continues')

  def judge(self):
    self.require(self.w.violation is None, *(self.w.violation or ('', '')))
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return sum(self.settled) > 0 and self.refused > 0

  def sample(self):
    return dict(accepted=self.accepted[:20], refused=self.refused, settled=self.settled, score=self.model['score'])
