# -*- coding: us-ascii -*-
"""P01: the playback server plays its whole script to the client, in order."""
import os
import sys
import errno
import sess
import loader
from kernel import Violation
from simmods import SockError

SCRIPT = os.path.join(loader.REPO, 'bglib/protocol/server.py')


def unlike(got, want):
  k = 0
  while k < len(got) and k < len(want) and got[k] == want[k]:
    k += 1
  return 'client got %d of %d bytes, from byte %d: %r, not %r' % (len(got), len(want), k, got[k:k + 300], want[k:k + 300])


class Client(object):
  """event-driven reader at the other end"""
  def __init__(self, w):
    self.w = w
    self.got = ''
    self.eof = False


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    w.tune(preempts=w.pick([0, 2, 6]), gap=w.pick([40, 200]), p_switch=w.pick([0, 64]), stall=w.pick([1e18, 0.0]))
    net, disk = self.net, self.env.disk
    self.env.use_disk()
    lines = []
    for i in range(w.skewed(14, 'lines')):
      k = w.weighted([5, 2, 1, 1], 'kind')
      lines.append(['line %d\r\n' % i, 'line %d\n' % i, '\r\n', 'x' * w.skewed(200, 'len') + '\n'][k])
    big = w.flip(0.06, 'big')
    if big:
      lines += ['%d ' % i + 'y' * w.pick([60, 700, 4000], 'long') + '\r\n' for i in range(w.rand_int(20, 250, 'more lines'))]
    self.script = ''.join(lines)
    if w.flip(0.3, 'no final newline'):
      self.script += 'login: '
    net.seg = w.pick([0, 1, 4, 60], 'seg')
    net.short_send = w.pick([0, 0, 1, 5, 40], 'short_send')
    if big:
      net.seg, net.short_send = 0, w.pick([0, 1460])
    net.jitter = w.pick([0.0, 0.02], 'jitter')
    net.sndbuf = w.pick([0, 5000]) if big else w.pick([0, 0, 4, 32, 300], 'sndbuf')
    disk.short = 0 if big else w.pick([0, 0, 3], 'short_read')
    self.fate = w.pick(['ok', 'ok', 'ok', 'disk', 'nofile', 'drop', 'reset', 'addr-in-use', 'half-close', 'accept-fails'], 'fate')
    self.when = w.pick([0.0, 0.015, 0.03, 0.06, 0.15], 'when')
    self.connect_after = w.pick([0.0, 0.05, 3.0], 'connect_after')
    disk.files['script.txt'] = self.script
    if self.fate == 'nofile':
      disk.open_faults['script.txt'] = [w.pick([errno.ENOENT, errno.EACCES, errno.EMFILE])]
    if self.fate == 'disk':
      at = w.choose(len(self.script) + 1, 'bad sector')
      disk.read_faults.append(lambda f, pos, n: errno.EIO if pos + n >= at and pos <= at else None)
    if self.fate == 'addr-in-use':
      net.bind_faults = [w.pick([errno.EADDRINUSE, errno.EACCES])]
    if self.fate == 'accept-fails':
      net.accept_faults = [w.pick([errno.EMFILE, errno.ECONNABORTED, errno.EINTR])]
    self.client = Client(w)
    self.exc = None
    self.cep = None
    self.listening = 0
    self.said = 'QUIT\r\n'
    net.note_listen = self.on_listen

  def on_listen(self, addr):
    self.listening += 1
    self.addr = addr
    self.w.after(self.connect_after, self.connect, 'client connects')

  def connect(self):
    import simmods
    net = self.net
    h = net.listeners.get(self.addr)
    if h is None:
      self.w.rec('refused')
      return
    a, b = simmods.Endpoint(net, 'c'), simmods.Endpoint(net, 's')
    a.peer, b.peer = b, a
    self.cep = a
    a.on_data = lambda ep, d: None
    h.connected(b)
    self.w.rec('connected')
    if self.fate == 'drop':
      self.w.after(self.when, lambda: a.do_close('error'), 'client closes')
    elif self.fate == 'reset':
      self.w.after(self.when, lambda: a.push_reset(), 'client resets')
    elif self.fate == 'half-close':
      a.push(self.said)                 # a client that talks, and ends its own direction
      self.w.after(self.when, lambda: a.push_eof(), 'client shuts down writing')

  def main(self):
    class sysmod(object):
      pass
    import simmods
    m = simmods.SimModule('sys', sys)
    m.argv = ['server.py', 'script.txt']
    m.exit = sys.exit
    self.env.sim['sys'] = m
    try:
      self.env.script(SCRIPT)
    except (IOError, OSError), e:
      self.exc = e
      self.w.rec('server-raised', err=repr(e))
    except SystemExit, e:
      self.w.rec('exit')
    self.w.rec('server-ends')

  def judge(self):
    w, net = self.w, self.net
    got = self.cep.got if self.cep is not None else ''
    want = self.script
    self.require(not w.left_info, 'server-stuck', repr(w.left_info))
    self.require(want.startswith(got), 'bytes-differ', unlike(got, want))
    if self.fate in ('ok', 'half-close'):
      self.require(self.exc is None, 'server-failed', repr(self.exc))
      self.require(got == want, 'script-incomplete', unlike(got, want))
    if self.fate == 'disk' and w.faults.get('read-EIO'):
      self.require(self.exc is not None, 'error-hidden', 'disk error not reported')
    if self.fate in ('nofile', 'addr-in-use', 'accept-fails'):
      self.require(self.exc is not None, 'error-hidden', self.fate)
    open_files = [h.name for h in self.env.disk.opened()]
    self.require(not open_files, 'file-left-open', repr(open_files))
    self.require(not net.listeners, 'socket-left-listening', repr(net.listeners.keys()))

  def nontrivial(self):
    return self.cep is not None and len(self.script) > 0

  def sample(self):
    return dict(script=self.script[:80], fate=self.fate, received=self.cep and self.cep.got[:80], error=repr(self.exc))
