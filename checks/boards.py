# -*- coding: us-ascii -*-
"""board generators shared by the model, drawing and network checks"""

FIELDS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
          'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
YOU, HIM, CENTER = 0, 1, 3
START = (0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0)


def fields(b):
  return tuple(getattr(b, k) for k in FIELDS)


def fields_dict(b):
  return dict((k, getattr(b, k)) for k in FIELDS)


def position(w, home=False):
  """a position both sides of which can stand on one board"""
  if w.flip(0.3, 'start'):
    return (START, START)
  you, him = [0] * 25, [0] * 25
  span = 6 if home else 25
  for side, other in ((you, him), (him, you)):
    left = 15
    off = w.pick([0, 0, 1, 5, 14]) if home or w.flip(0.3) else 0
    left -= off
    for k in range(w.rand_int(1, 6, 'stacks')):
      p = w.choose(span, 'point')
      if p < 24 and other[23 - p]:
        continue
      n = min(left, w.rand_int(1, 6, 'height'))
      side[p] += n
      left -= n
    while left:
      p = w.choose(span, 'rest')
      if p < 24 and other[23 - p]:
        p = 24 if span == 25 else 0
        if p == 0 and other[23]:
          break
      side[p] += left
      left = 0
  return (tuple(you), tuple(him))


def drawable(w):
  """keyword arguments of a board in a state the renderers know"""
  you = w.choose(2, 'who')
  opp = 1 - you
  d = dict(position=position(w), game_state=1, on_action=you, on_inner_action=you,
           cube_in_logarithm=w.choose(7), cube_owner=w.pick([3, 0, 1]), crawford=w.flip(0.2),
           match_length=w.pick([0, 1, 5, 13]), score=(w.choose(5), w.choose(5)))
  k = w.choose(4, 'state')
  if k == 0:
    d['rolled'] = (w.rand_int(1, 6), w.rand_int(1, 6))
  elif k == 1:
    d['doubled'] = True
    d['on_inner_action'] = w.pick([opp, you])
  elif k == 2:
    d['on_inner_action'] = opp
    d['resign_offer'] = w.rand_int(1, 3)
  return d


BAR, OFF = 24, -1


def moved(position, who, src, dest, hit):
  """the position after one partial move (or its undoing: dest above src)"""
  mine, his = list(position[who]), list(position[1 - who])
  if src != OFF:
    mine[src] -= 1
  if dest != OFF:
    mine[dest] += 1
  if hit:
    if dest > src:
      his[23 - src] += 1
      his[BAR] -= 1
    else:
      his[23 - dest] -= 1
      his[BAR] += 1
  return (tuple(mine), tuple(his)) if who == 0 else (tuple(his), tuple(mine))


def partial_moves(w, position, who, n, dice=range(1, 7)):
  """up to n partial moves (die, src, dest, hit) that can be made one after the other, and the position after them"""
  out = []
  for i in range(n):
    mine, his = position[who], position[1 - who]
    can = []
    for src in range(25):
      if mine[src] and (src == BAR or not mine[BAR]):
        for die in dice:
          dest = src - die
          if dest < 0:
            if not [p for p in range(6, 25) if mine[p]]:
              can.append((die, src, OFF, False))
          elif his[23 - dest] < 2:
            can.append((die, src, dest, his[23 - dest] == 1))
    if not can:
      break
    pm = w.pick(can, 'pm')
    out.append(pm)
    position = moved(position, who, pm[1], pm[2], pm[3])
  return out, position
