# -*- coding: us-ascii -*-
"""T01: a simulated tournament conserves players and lives in every round."""
import errno
import math
import sess
from kernel import Violation

EXTREME = [0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -60, 0.25, 0.75]


class Entropy(OSError):
  pass


def install(case, m):
  """random module whose every answer the seed decides, in one of several moods"""
  w = case.w
  real_random, real_shuffle = m.random, m.shuffle
  def rnd():
    mood = case.mood
    if case.inner:
      return real_random()
    if case.fail_rate and w.flip(case.fail_rate, 'entropy'):
      w.fault('random-source-fails')
      raise Entropy(errno.EIO, 'no entropy')
    w.op('random')
    if case.strata is not None:
      k, n = case.strata
      case.strata = (k + 1, n)
      return (k % n + real_random()) / n
    if mood == 'fair':
      return real_random()
    if mood == 'extreme':
      w.fault('extreme-random')
      return EXTREME[w.choose(len(EXTREME), 'value')]
    if mood == 'low':
      return 0.0
    return 1.0 - 2.0 ** -53
  def shuffle(xs, random=None):
    w.op('shuffle')
    if case.strata is not None or case.order == 'fair':
      case.inner += 1
      try:
        if case.strata is not None:
          if case.flipped:
            xs.reverse()
        else:
          real_shuffle(xs)
      finally:
        case.inner -= 1
    elif case.order == 'sorted':
      xs.sort()
    elif case.order == 'reverse':
      xs.sort()
      xs.reverse()
    elif case.order == 'rotate':
      k = w.choose(len(xs) or 1, 'rotation')
      xs[:] = xs[k:] + xs[:k]
    else:
      w.shuffle(xs)
  m.random = rnd
  m.shuffle = shuffle


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 2, 6]), gap=w.pick([10, 60, 300]), p_switch=w.pick([0, 32]), stall=1e18)
    self.mood = w.pick(['fair', 'extreme', 'low', 'high'], 'mood')
    self.order = w.pick(['fair', 'sorted', 'reverse', 'rotate', 'drawn'], 'order')
    self.fail_rate = w.pick([0, 0, 0.02, 0.2], 'fail_rate')
    self.strata = None
    self.flipped = False
    self.inner = 0
    install(self, self.env.sim['random'])
    self.rounds = self.interrupted = self.finished = 0
    self.duels = []

  def main(self):
    w = self.w
    self.T = T = self.env.load('bglib.stat.tourney')
    th = self.env.sim['threading']
    ts = [th.Thread(target=self.tournament) for i in range(w.rand_int(1, 3, 'tournaments'))]
    for t in ts: t.start()
    for t in ts: t.join()
    if w.flip(0.4, 'duel'):
      self.duel()
    if w.flip(0.15, 'draw'):
      self.draw()

  def tournament(self):
    w, T = self.w, self.T
    n = w.skewed(40, 'entrants')
    if w.flip(0.3, 'default entries'):
      t = T.Tourney(n)
      entries = None
      people = dict(t.alive)
      self.require(len(people) == n, 'entrants-lost', '%d of %d entered' % (len(people), n))
    else:
      keys = range(n) if w.flip(0.7) else ['p%d' % i for i in range(n)]
      people = {}
      for k in keys:
        people[k] = T.Player(w.rand_int(1, 4, 'lives'), w.pick([1000, 1500, 1523.5, 2100, 400], 'rating'))
      entries = dict(people)
      t = T.Tourney(n, entries)
    t.matchlength = w.pick([7, 1, 25], 'length')
    ratings = dict((k, p.rating) for k, p in people.items())
    total = sum(p.lives for p in people.values())
    self.check(t, people, ratings, 'before the first round')
    w.rec('start', n=n, lives=total)
    rounds = 0
    while len(t.alive) > 1:
      rounds += 1
      # each completed round costs a life: after `total` of them nobody can be left to play
      self.require(rounds <= 4 * total + 40, 'no-progress', '%d rounds, %d still alive' % (rounds, len(t.alive)))
      before = dict((k, p.lives) for k, p in people.items())
      alive = set(t.alive)
      try:
        t.round()
        done = True
        self.rounds += 1
      except Entropy:
        done = False
        self.interrupted += 1
        if rounds > 2 * total:
          self.fail_rate = 0
      self.check(t, people, ratings, 'after round %d' % rounds)
      lost = [k for k in people if people[k].lives != before[k]]
      w.rec('round', alive=len(alive), lost=len(lost), done=done)
      for k in lost:
        self.require(people[k].lives == before[k] - 1, 'lives', '%r went from %d lives to %d in one round' %
                     (k, before[k], people[k].lives))
        self.require(k in alive, 'dead-played', '%r was dead and lost a life' % (k,))
      if done:
        self.require(len(lost) == len(alive) // 2, 'matches', '%d players, %d lives lost' % (len(alive), len(lost)))
      else:
        self.require(len(lost) <= len(alive) // 2, 'matches', '%d players, %d lives lost' % (len(alive), len(lost)))
      if entries is not None:
        self.require(sorted(entries) == sorted(people) and all(entries[k] is people[k] for k in people),
                     'entries-changed', 'the caller had %d entries, now %d' % (len(people), len(entries)))
    self.require(n == 0 or len(t.alive) == 1, 'no-winner', repr(t.alive))
    self.finished += 1

  def check(self, t, people, ratings, when):
    a, d = set(t.alive), set(t.dead)
    self.require(not a & d, 'alive-and-dead', '%r %s' % (sorted(a & d), when))
    self.require(a | d == set(people), 'entrants-lost', '%r %s' % (sorted(set(people) ^ (a | d)), when))
    for k, p in people.items():
      self.require((t.alive if k in a else t.dead)[k] is p, 'other-player', '%r is someone else %s' % (k, when))
      self.require((k in d) == (p.lives <= 0), 'dead-iff-no-lives', '%r has %d lives, %s %s' %
                   (k, p.lives, k in d and 'dead' or 'alive', when))
      self.require(p.rating == ratings[k], 'rating-changed', '%r %s' % (k, when))

  def duel(self):
    """the favourite's share of wins over an even spread of random values"""
    w, T = self.w, self.T
    self.fail_rate = 0
    n = 64
    ra, rb = w.pick([(1500, 1500), (1800, 1500), (1500, 1800), (1000, 2000), (2000, 1000), (1700, 1650)])
    length = w.pick([1, 7, 25])
    for self.flipped in (False, True):
      a, b = T.Player(10 ** 6, ra), T.Player(10 ** 6, rb)
      t = T.Tourney(2, {'a': a, 'b': b})
      t.matchlength = length
      self.strata = (0, n)
      for i in range(n):
        t.round()
      # one value from each of n even slices: the share is exact but for the slices the probability falls in
      slack = 0.05 * n if self.strata[0] == n else 0.3 * n
      self.strata = None
      wins = 10 ** 6 - b.lives
      self.require(wins + 10 ** 6 - a.lives == n, 'matches', '%d rounds, %d lost' % (n, 2 * 10 ** 6 - a.lives - b.lives))
      p = 1.0 / (10 ** ((rb - ra) * math.sqrt(length) / 2000.0) + 1)
      self.duels.append((ra, rb, length, wins))
      self.require(abs(wins - p * n) <= slack, 'favourite', 'player rated %s won %d of %d against %s at %d points; '
                   'expected about %.1f' % (ra, wins, n, rb, length, p * n))

  def draw(self):
    """with a fair random source, players who never drop out all come to meet"""
    T = self.T
    self.fail_rate, self.mood, self.order = 0, 'fair', 'fair'
    people = dict((k, T.Player(10 ** 6, 1500)) for k in 'abcd')
    t = T.Tourney(4, people)
    fell = set()
    for i in range(200):
      before = dict((k, people[k].lives) for k in people)
      t.round()
      fell.add(tuple(sorted(k for k in people if people[k].lives != before[k])))
    # two who lost in the same round had different opponents; of all six pairs each should turn up
    self.require(len(fell) == 6, 'draw', 'in 200 rounds of four even players only %r lost together' % sorted(fell))

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.rounds > 1

  def sample(self):
    return dict(mood=self.mood, order=self.order, rounds=self.rounds, interrupted=self.interrupted,
                tournaments=self.finished, duels=self.duels)
