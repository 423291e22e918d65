# -*- coding: us-ascii -*-
"""Reference for message kinds: frozen pattern tables, phase automaton, message generator."""
import os
import re
import json
import sre_parse

_f = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fibs_spec.json'))
SPEC = json.load(_f)
_f.close()
LOGIN, MOTD, RUN = 'LoginState', 'MOTDState', 'RunState'
TABLE = {}
PATTERNS = {}
for _p, _d in SPEC.items():
  TABLE[str(_p)] = [(str(k), [re.compile(str(x)) for x in v]) for k, v in sorted(_d.items())]
  PATTERNS[str(_p)] = [(str(k), str(x)) for k, v in sorted(_d.items()) for x in v]
DEFAULT = {LOGIN: 'FIBS_PreLogin', MOTD: 'FIBS_MOTD', RUN: 'FIBS_Unknown'}
_cache = {}


def kinds(phase, msg):
  """kinds whose pattern matches msg in that phase"""
  if phase == RUN and msg == '':
    return ('FIBS_Empty',)
  r = _cache.get((phase, msg))
  if r is None:
    r = tuple([k for k, ps in TABLE[phase] if [1 for p in ps if p.match(msg)]]) or (DEFAULT[phase],)
    if len(_cache) < 50000:
      _cache[(phase, msg)] = r
  return r


def step(phase, kind):
  if phase == LOGIN and kind == 'CLIP_MOTD_BEGIN':
    return MOTD
  if phase == MOTD and kind == 'CLIP_MOTD_END':
    return RUN
  if phase == RUN and kind == 'FIBS_Goodbye':
    return LOGIN
  return phase


# ---- generation from the patterns
PRINT = ''.join(map(chr, range(32, 127)))
_parsed = {}


def _set(items):
  neg = False
  out = set()
  for op, av in items:
    op = str(op).lower()
    if op == 'negate':
      neg = True
    elif op == 'literal':
      out.add(chr(av))
    elif op == 'range':
      out.update(map(chr, range(av[0], av[1] + 1)))
    elif op == 'category':
      out.update('0123456789')
  if neg:
    return [c for c in PRINT if c not in out]
  return sorted(out)


def _gen(w, node, out):
  for op, av in node:
    op = str(op).lower()
    if op == 'literal':
      out.append(chr(av))
    elif op == 'not_literal':
      out.append(w.pick([c for c in PRINT if c != chr(av)]))
    elif op == 'any':
      out.append(w.pick(PRINT))
    elif op == 'in':
      out.append(w.pick(_set(av)))
    elif op in ('max_repeat', 'min_repeat'):
      lo, hi, sub = av
      for i in range(lo + w.skewed(min(int(hi) - lo, 6), 'rep')):
        _gen(w, sub, out)
    elif op == 'subpattern':
      _gen(w, av[1], out)
    elif op == 'branch':
      _gen(w, w.pick(av[1]), out)
    elif op == 'at':
      if str(av).lower() == 'at_end':
        return False
    else:
      raise ValueError(op)
  return True


def from_pattern(w, pat):
  p = _parsed.get(pat)
  if p is None:
    p = _parsed[pat] = sre_parse.parse(pat)
  out = []
  if _gen(w, p, out) is not False and w.flip(0.5, 'suffix'):
    out.append(w.pick([' ', '.', ' bob', ' 1', ' 7-3 .', ':0:1']))
  return ''.join(out)


BOARD = ('board:You:someplayer:3:0:1:0:-2:0:0:0:0:5:0:3:0:0:0:-5:5:0:0:0:-3:0:-5:0:0:0:0:2:0:1:'
         '6:2:0:0:1:1:1:0:1:-1:0:25:0:0:0:0:2:0:0:0')
AUTHENTIC = [
  '1 nori 1041253132 192.168.40.3', '2 nori 1 1 0 0 0 0 1 1 2396 0 1 0 1 3457.85 0 0 0 0 0 Australia/Melbourne',
  '5 someplayer mgnu_advanced - 0 0 1912.15 827 8 1041253132 192.168.143.5 3DFiBs -', '6', '7 bob bob logs in.',
  '8 bob bob drops connection.', '9 bob 1041253132 I will come back', '10 bob', '11 bob', '12 bob hello', '13 bob hi',
  '14 bob hi', '15 bob hi', '16 bob hi', '17 hi all', '18 hi', '19 hi', 'You roll 5 and 3', 'bob rolls 3 and 4',
  'bob doubles. Type \'accept\' or \'reject\'.', 'bob moves 8-5 6-5 .', '** Unknown command: xyz', '** You can\'t move 3',
  '             Goodbye.', 'login: ', '3', '4', '', 'xyzzy', 'board:x', '1', '2 x', '> 5', '+---+', '4 ', '34', ' 4']


def mutate(w, s):
  if not s:
    return w.pick(['4', '3', ' '])
  i = w.choose(len(s), 'mi')
  k = w.choose(4, 'mk')
  if k == 0:
    return s[:i] + s[i + 1:]
  if k == 1:
    return s[:i] + w.pick(PRINT) + s[i + 1:]
  if k == 2:
    return w.pick(' *x4') + s
  return s[:i]


def message(w, phase, boards=3):
  """a message for the given phase, transitions excluded unless asked"""
  k = w.weighted([8, 3, 3, 2, 1, phase == RUN and boards or 0], 'msg')
  if k == 0:
    s = from_pattern(w, w.pick(PATTERNS[phase])[1])
  elif k == 1:
    s = w.pick(AUTHENTIC)
  elif k == 2:
    s = mutate(w, from_pattern(w, w.pick(PATTERNS[phase])[1]))
  elif k == 3:
    s = from_pattern(w, w.pick(PATTERNS[w.pick([LOGIN, MOTD, RUN])])[1])
  elif k == 5:
    s = w.pick(['board:x', BOARD, 'board:a:b:1', 'board:You:x:3:', BOARD])
  else:
    s = ''.join([w.pick(PRINT) for i in range(w.choose(12))])
  return s


def stream(w, n, ok=lambda s: True, boards=3):
  """[(message, allowed kinds)] following the phases"""
  phase = LOGIN
  out = []
  hurry = w.flip(0.7, 'hurry')
  for i in range(n):
    if phase == LOGIN and w.flip(hurry and 0.7 or 0.3, 'to-motd'):
      s = '3'
    elif phase == MOTD and w.flip(hurry and 0.7 or 0.3, 'to-run'):
      s = '4'
    elif phase == RUN and w.flip(0.07, 'bye'):
      s = '             Goodbye.'
    elif out and w.flip(0.2, 'again'):
      s = out[w.choose(len(out), 'which')][0]
    else:
      s = message(w, phase, boards)
    if not ok(s):
      continue
    ks = kinds(phase, s)
    nxt = set([step(phase, k) for k in ks])
    if len(nxt) > 1:
      continue                     # which phase follows would depend on the ambiguity
    out.append((s, ks, phase))
    phase = nxt.pop()
  return out
