# -*- coding: us-ascii -*-
"""K01: a match written down as its IDs, or in its database form, is picked up where it was left."""
import types
import boards
import sess
from boards import FIELDS
from m02 import legal, step

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def tonic():
  """stand-in for the missing third-party tonic.BitsArray: a fixed number of bits, packed lowest bit first"""
  m = types.ModuleType('tonic')

  class BitsArray(object):
    def __init__(self, size, binary=None, endian='>'):
      assert endian == '<'
      self.size = size
      self.bits = [0] * size
      if binary is not None:
        for i in range(min(size, len(binary) * 8)):
          self.bits[i] = ord(binary[i // 8]) >> i % 8 & 1

    def __getitem__(self, i):
      if isinstance(i, slice):
        return self.part(i.start or 0, self.size if i.stop is None else i.stop)
      return self.bits[i]

    def __getslice__(self, a, b):
      return self.part(a, min(b, self.size))

    def part(self, a, b):
      r = BitsArray(b - a, endian='<')
      r.bits = self.bits[a:b]
      return r

    def __repr__(self):
      return "<BitsArray Instance '%s'>" % ':'.join(map(str, self.bits))

    def __iter__(self):
      return iter(self.bits)

    def __len__(self):
      return self.size

    def __int__(self):
      return sum(b << i for i, b in enumerate(self.bits))

    def __nonzero__(self):
      return any(self.bits)

    def set_shiftable(self, value, begin, end):
      value = int(value)
      assert 0 <= value < 1 << end - begin, (value, begin, end)
      for i in range(begin, end):
        self.bits[i] = value >> i - begin & 1

    @property
    def binary(self):
      out = []
      for k in range(0, self.size, 8):
        out.append(chr(sum(b << i for i, b in enumerate(self.bits[k:k + 8]))))
      return ''.join(out)

  m.BitsArray = BitsArray
  return m


class Crash(Exception):
  pass


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    self.ntables = w.pick([2, 1, 3, 1], 'tables')
    self.n = w.flip(0.03, 'plenty') and 100 or w.rand_int(3, 22, 'steps')
    self.crash = w.pick([0.0, 0.1, 0.4], 'crash')
    self.torn = w.pick([0.0, 0.3, 0.8], 'torn')
    self.lost = w.pick([0.0, 0.0, 0.2], 'lost writes')
    self.spectators = w.pick([0, 1, 2, 0], 'spectators')
    self.journals = []
    self.ids = {}
    self.saved = self.resumed = self.cut = self.watched = 0
    self.knobs = dict(preempts=w.pick([0, 4, 10, 30]), gap=w.pick([10, 40, 200]), p_switch=w.pick([0, 64, 128]))

  def main(self):
    w = self.w
    self.env.sim['tonic'] = tonic()
    self.m = self.env.load('bglib.model')
    self.g = self.env.load('bglib.encoding.gnubgid')
    self.b = self.env.load('bglib.encoding.dbbyte')
    w.tune(**self.knobs)
    T = self.env.sim['threading']
    self.playing = self.ntables
    for k in range(self.ntables):
      self.journals.append([])
    ts = [T.Thread(target=self.table, args=(k,)) for k in range(self.ntables)]
    ts += [T.Thread(target=self.spectator) for k in range(self.spectators)]
    for t in ts: t.start()
    for t in ts: t.join()

  def want(self, cond, kind, detail):
    if not cond:
      self.w.fail(kind, detail)

  def position(self):
    w = self.w
    p = boards.position(w, w.flip(0.4, 'home'))
    if w.flip(0.5, 'bearing off'):
      p = [list(side) for side in p]
      for side in p:
        for i in range(w.skewed(16, 'borne off')):
          on = [k for k in range(25) if side[k]]
          if on:
            side[w.pick(on, 'from')] -= 1
    return tuple([tuple(side) for side in p])

  def new_game(self, d):
    w = self.w
    me = w.choose(2, 'first')
    d = dict(d, position=self.position(), game_state=w.pick([1, 1, 1, 1, 0, 2, 3, 4], 'state'),
             on_action=me, on_inner_action=me,
             rolled=(0, 0), doubled=False, resign_offer=0, cube_in_logarithm=w.pick([0, 0, 1, 2, 6, 15], 'cube'),
             cube_owner=w.pick([3, 0, 1], 'owner'), crawford=w.flip(0.2, 'crawford'))
    if d['match_length'] == 0:
      d['score'] = (0, 0)
      d['crawford'] = False
    return d

  def advance(self, d):
    """any next state of the match"""
    w = self.w
    if d['game_state'] != 1 or w.flip(0.15, 'new game'):
      return self.new_game(d)
    if w.flip(0.4, 'move'):
      return dict(d, position=self.position())
    can = [(r, p) for r in ('roll', 'done', 'double', 'take', 'drop', 'resign', 'accept', 'reject') for p in (0, 1)
           if legal(d, r, p, 1)]
    if not can:
      return self.new_game(d)
    r, p = w.pick(can, 'action')
    arg = None
    if r == 'roll':
      arg = (w.rand_int(1, 6), w.rand_int(1, 6))
    elif r == 'resign':
      arg = w.rand_int(1, 3)
    d = step(d, r, p, arg)
    return d if max(d['score']) < 32768 else self.new_game(dict(d, score=(0, 0)))

  def table(self, k):
    w = self.w
    kind = w.weighted([3, 1], 'form') and 'database' or 'ids'
    ml = w.pick([0, 1, 3, 7, 25, 32767, 1000], 'length')
    d = dict(match_length=ml, score=(w.choose(ml or 1), w.choose(ml or 1)))
    d = self.new_game(dict(boards.fields_dict(self.m.BoardEditor()), **d))
    e = self.editor(d)
    self.save(k, kind, e, d)
    for i in range(self.n):
      new = self.advance(d)
      for f in FIELDS:
        if new[f] != d[f]:
          setattr(e, f, new[f])
      d = new
      w.sleep(w.pick([0.0, 0.0, 0.5]))
      if self.crash and w.flip(self.crash, 'crash'):
        w.abort_after(w.rand_int(1, 250, 'line'), Crash(), 'server-crash')
      try:
        try:
          self.save(k, kind, e, d)
          crashed = False
        except Crash:
          crashed = True
      finally:
        w.abort_off()
      if crashed or w.flip(self.crash, 'power cut'):
        e, d = self.resume(k, kind, e)
    self.playing -= 1

  def editor(self, d):
    e = self.m.BoardEditor()
    for f in FIELDS:
      setattr(e, f, d[f])
    return e

  def save(self, k, kind, e, d):
    w = self.w
    b = e.freeze()
    if kind == 'ids':
      pid, mid = self.g.encode(w.pick([b, e], 'saved from'))
      ok = len(pid) == 14 and len(mid) == 12 and not [c for c in pid + mid if c not in ALPHABET]
      self.want(ok, 'not-an-id', '%r %r for %r' % (pid, mid, d))
      other = self.ids.setdefault((pid, mid), d)
      self.want(other == d, 'same-id', '%s:%s for %r and %r' % (pid, mid, d, other))
      record = (pid, mid)
    else:
      record = self.b.DatabaseBytesExpression(b)
      for f in FIELDS[1:]:
        self.want(getattr(record, f) == d[f], 'database-form-differs', '%s is %r in %r' % (f, getattr(record, f), d))
    self.want(boards.fields_dict(e) == d and boards.fields_dict(b) == d, 'changed-by-saving', '%r' % (boards.fields_dict(e),))
    if self.lost and w.flip(self.lost, 'lost'):
      w.fault('write-lost')
      return
    self.journals[k].append((kind, record, d))
    self.saved += 1
    w.rec('saved', k=k, n=len(self.journals[k]))

  def resume(self, k, kind, used):
    """the server is gone; what it wrote down is all there is (its last record perhaps not to its end)"""
    w = self.w
    w.fault('server-crash')
    j = self.journals[k]
    if w.flip(0.5, 'tampered') and j:
      self.tamper(w.pick(j, 'which'))
    if kind == 'ids' and len(j) > 1 and self.torn and w.flip(self.torn, 'torn'):
      self.read_torn(j.pop())
    while not j:
      # nothing was ever written: the match starts again
      d = self.new_game(dict(boards.fields_dict(self.m.BoardEditor())))
      e = self.editor(d)
      self.save(k, kind, e, d)
    used = w.flip(0.5, 'used editor') and used or None
    while self.crash and w.flip(self.crash, 'again'):
      # and it dies again while it reads
      w.abort_after(w.rand_int(1, 250, 'line'), Crash(), 'crash-while-reading')
      try:
        try:
          self.read(j[-1], used)
        except Crash:
          pass
      finally:
        w.abort_off()
    e = self.read(j[-1], used)
    self.resumed += 1
    return e, dict(j[-1][2])

  def read(self, entry, e=None):
    kind, record, d = entry
    if kind == 'ids':
      if e is None:
        e = self.m.BoardEditor()
      self.g.decode(e, record[0], record[1])
    else:
      e = self.m.BoardEditor(record.tomodel())
    got = boards.fields_dict(e)
    self.want(got == d, 'other-match', '%r read back as %r instead of %r' %
              (record, dict((f, got[f]) for f in FIELDS if got[f] != d[f]), dict((f, d[f]) for f in FIELDS if got[f] != d[f])))
    return e

  def read_torn(self, entry):
    w = self.w
    pid, mid = entry[1]
    if w.flip(0.5, 'which id'):
      pid = pid[:w.choose(len(pid), 'cut')]
    else:
      mid = mid[:w.choose(len(mid), 'cut')]
    w.fault('record-torn')
    e = self.editor(self.new_game(dict(boards.fields_dict(self.m.BoardEditor()))))
    before = boards.fields_dict(e)
    try:
      self.g.decode(e, pid, mid)
    except Exception as x:
      w.rec('refused', error=x.__class__.__name__)
    else:
      w.fail('torn-accepted', '%s:%s of %s:%s' % ((pid, mid) + entry[1]))
    self.want(boards.fields_dict(e) == before, 'refused-half', '%s:%s changed the board it was refused for' % (pid, mid))
    self.cut += 1

  def tamper(self, entry):
    kind, record, d = entry
    if kind != 'database':
      return
    f = self.w.pick(FIELDS, 'field')
    for how in (lambda: setattr(record, f, d['position']), lambda: delattr(record, f)):
      try:
        how()
      except Exception:
        continue
      self.w.fail('altered', '%s of a database form' % f)

  def spectator(self):
    w = self.w
    e = None
    while self.playing and w.violation is None:
      w.sleep(w.pick([0.1, 0.5]))
      j = w.pick(self.journals, 'match')
      if j:
        e = self.read(w.pick(j, 'moment'), e if w.flip(0.5, 'used editor') else None)
        self.watched += 1

  def judge(self):
    self.require(self.w.violation is None, *(self.w.violation or ('', '')))
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))

  def nontrivial(self):
    return self.resumed > 0

  def sample(self):
    return dict(saved=self.saved, resumed=self.resumed, torn=self.cut, watched=self.watched)
