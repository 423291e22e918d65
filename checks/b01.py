# -*- coding: us-ascii -*-
"""B01: bearoff database reads return the exact record or an error, never a fragment."""
import errno
import struct
import types
import sess
from kernel import Violation
from simmods import SimModule

CLASSES = [('bglib.encoding.bearoff.trice', 'DBRreader'), ('bglib.encoding.bearoff.nori', 'DBRreader'),
           ('bglib.encoding.bearoff.gnubgdb', 'DBRreader'), (None, 7), (None, 32)]
SIZE = 16                           # four floats: the records of every database format named above
PATHS = ['one.db', 'two.db', 'three.db']


def tonic():
  """stand-in for the missing third-party tonic.combination (arithmetic only)"""
  m = types.ModuleType('tonic')
  c = types.ModuleType('tonic.combination')
  def fact(n):
    r = 1
    for i in range(2, n + 1):
      r *= i
    return r
  def C(n, r):
    if r < 0 or r > n:
      return 0
    x = 1
    for i in range(r):
      x = x * (n - i) // (i + 1)
    return x
  c.fact, c.C = fact, C
  c.C_Hash = lambda xs, r: 0
  c.C_RHash = lambda n, a, b: []
  m.combination = c
  m.BitsArray = type('BitsArray', (object,), {})     # only named, never used here
  return m


class Reader(object):
  def __init__(self, i, cls, path):
    self.i, self.cls, self.path = i, cls, path
    self.obj = None


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 2, 6, 20]), gap=w.pick([3, 12, 40]), p_switch=w.pick([0, 64, 128]), stall=1e18)
    self.env.sim['tonic'] = tonic()
    self.env.use_disk()
    disk = self.disk = self.env.disk
    disk.short = w.pick([0, 1, 3, 9, 15, 40], 'short_read')
    self.now = {}                       # path -> content length at this moment
    self.full = {}
    self.lens = {}                      # path -> [(seq, length)]
    npath = w.rand_int(1, 3, 'files')
    for p in PATHS[:npath]:
      n = w.skewed(40, 'records') + 1
      extra = w.pick([0, 0, 0, 1, 5, 15], 'torn tail')
      self.full[p] = ''.join(chr((i * 7 + i // 16 * 31 + len(p) * 50) % 256) for i in range(n * 16 + extra))
      disk.files[p] = self.full[p]
      self.lens[p] = [(0, len(self.full[p]))]
    self.fault = w.pick(['none', 'eio', 'eio', 'truncate', 'truncate', 'open', 'sector'], 'fault')
    self.fail_now = 0
    self.eio = 0
    disk.read_faults.append(self.on_read)
    self.bad = None
    self.open_errno = {}
    if self.fault == 'sector':
      p = w.pick(PATHS[:npath])
      self.bad = (p, w.choose(len(self.full[p]), 'bad sector'))
    if self.fault == 'open':
      for p in PATHS[:npath]:
        e = self.open_errno[p] = w.pick([errno.ENOENT, errno.EACCES, errno.EMFILE])
        disk.open_faults[p] = [None] * w.choose(2) + [e]
    self.readers = w.rand_int(1, 3, 'readers')
    self.oks = 0
    self.errs = 0
    self.ops = []
    self.current = {}                   # task id -> op in progress

  def on_read(self, f, pos, n):
    op = self.current.get(self.w.current and self.w.current.id)
    if self.bad and f.name == self.bad[0] and pos <= self.bad[1] < pos + n:
      if op: op['eio'] += 1
      return errno.EIO
    if self.fault == 'eio' and self.w.flip(0.08, 'EIO'):
      if op: op['eio'] += 1
      return self.w.pick([errno.EIO, errno.ESTALE, errno.EINTR], 'which')
    return None

  def set_len(self, p, n):
    self.disk.files[p] = self.full[p][:n]
    s = self.w.rec('truncate', path=p, length=n)
    self.lens[p].append((s, n))
    self.w.fault('truncate' if n < len(self.full[p]) else 'restore')

  def make(self, which):
    mod, name = which
    if mod is None:
      base = self.env.load('bglib.encoding.bearoff').DBReader
      return type('R', (base,), {'datalen': name, 'dump': lambda self, n: self.rawread(n),
                                 'key_to_index': lambda self, key: int(key, 16)})
    return getattr(self.env.load(mod), name)

  def main(self):
    w = self.w
    T = self.env.sim['threading']
    for mod, name in CLASSES:
      self.env.load(mod or 'bglib.encoding.bearoff')
    ts = []
    for i in range(self.readers):
      t = T.Thread(target=self.reader, args=(i,))
      ts.append(t)
    for t in ts:
      t.start()
    if self.fault == 'truncate':
      for i in range(w.rand_int(1, 4)):
        for k in range(w.choose(12, 'delay')):
          w.op('nap')
          w.switch('nap')
        p = w.pick(sorted(self.full))
        self.set_len(p, w.choose(len(self.full[p]) + 1, 'length') if w.flip(0.7) else len(self.full[p]))
    for t in ts:
      t.join()

  def try_open(self, obj, path):
    try:
      obj.open(path)
      return True
    except IOError, e:
      self.require(e.errno == self.open_errno.get(path), 'open-error',
                   'open of %s raised %r' % (path, e))
      self.w.rec('open-failed', path=path)
      return False

  def reader(self, i):
    w = self.w
    cls = self.make(w.pick(CLASSES, 'class'))
    path = w.pick(sorted(self.full), 'path')
    obj = cls()
    opened = self.try_open(obj, path)
    if not opened:
      opened = self.try_open(obj, path)
      self.require(opened, 'open-stuck', 'second open failed too')
    size = cls.datalen if cls.__name__ == 'R' else SIZE
    total = len(self.full[path]) // size
    last = 0
    for k in range(w.flip(0.08, 'plenty') and 60 or w.rand_int(1, 8, 'reads')):
      how = w.weighted([6, 3, 3, 2, 1], 'index')
      if how == 0: index = w.choose(total + 1, 'n')
      elif how == 1: index = last + 1
      elif how == 2: index = last
      elif how == 3: index = max(0, total - 1 + w.choose(3))
      else: index = total + w.skewed(1000)
      last = index
      self.read(i, cls, obj, path, size, index, w.choose(3, 'method'))
      if w.flip(0.08, 'reopen'):
        obj.close()
        if not self.try_open(obj, path) and not self.try_open(obj, path):
          raise Violation('open-stuck', 'reopening failed')
    obj.close()

  def read(self, i, cls, obj, path, size, index, method):
    w = self.w
    op = dict(reader=i, path=path, index=index, size=size, eio=0)
    self.ops.append(op)
    op['start'] = w.rec('read', path=path, index=index, size=size, reader=i)
    self.current[w.current.id] = op
    name = 'rawread'
    exc = res = None
    try:
      if method and cls.__name__ == 'R':
        name = 'key'
        res = obj['%x' % index]
      elif method and 'dump' in cls.__dict__:
        name = 'dump'
        if method == 2:
          name = 'human_readable'
          res = obj.human_readable(index + 1)
        else:
          res = obj.dump(index)
      else:
        res = obj.rawread(index)
    except Exception, e:
      exc = e
    finally:
      self.current.pop(w.current.id, None)
    end = w.rec('result', res=res, exc=repr(exc))
    rec = self.full[path][index * size:(index + 1) * size]
    lens = [n for s, n in self.lens[path] if s <= op['start']][-1:] + \
           [n for s, n in self.lens[path] if op['start'] < s < end]
    whole = [n >= (index + 1) * size for n in lens]
    what = '%s(%d) of %s (%d-byte records, file lengths %r, %d disk errors)' % (name, index, path, size, lens, op['eio'])
    if exc is None:
      want = rec
      if name not in ('rawread', 'key'):
        want = len(rec) == size and struct.unpack('ffff', rec)
        if name == 'human_readable':
          a, b, c, d = want or (0, 0, 0, 0)
          want = a, b * 2, c * 2, d
      self.require(any(whole), 'fragment', '%s returned %r though the record was never complete' % (what, res))
      self.require(repr(res) == repr(want), 'wrong-record', '%s returned %r, not %r' % (what, res, want))
      self.require(not op['eio'], 'error-hidden', '%s returned data though the disk failed' % what)
      self.oks += 1
    elif isinstance(exc, IndexError):
      self.require(not all(whole), 'spurious-end', '%s raised %r' % (what, exc))
      self.errs += 1
    elif isinstance(exc, (IOError, OSError)):
      self.require(op['eio'], 'spurious-error', '%s raised %r' % (what, exc))
      self.errs += 1
    else:
      raise Violation('wrong-error', '%s raised %r' % (what, exc))

  def judge(self):
    self.require(not self.w.left_info, 'stuck', repr(self.w.left_info))
    self.require(not self.disk.opened(), 'not-closed', 'every reader was closed, files are still open')

  def nontrivial(self):
    return self.oks > 1

  def sample(self):
    return dict(fault=self.fault, reads=len(self.ops), ok=self.oks, errors=self.errs,
                files=dict((k, len(v)) for k, v in self.full.items()), short=self.disk.short)
