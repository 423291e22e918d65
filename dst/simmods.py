# -*- coding: us-ascii -*-
"""Simulated thread/threading/time/socket/select/os/file/random/datetime modules.

Each factory takes a World and returns module-like objects the loader hands to
code under test in place of the real modules.
"""
import sys
import errno
import types
import random as real_random
import datetime as real_datetime
import time as real_time
import os as real_os
import socket as real_socket
import threading as real_threading
import thread as real_thread
import logging as real_logging
import kernel
from kernel import Waiter, SimKill, Violation, RUNNABLE, BLOCKED, DONE


class SimModule(object):
  """module stand-in: own attributes first, then the real module's."""
  def __init__(self, name, real=None, deny=()):
    self.__dict__['__name__'] = name
    self.__dict__['_real'] = real
    self.__dict__['_deny'] = deny
    self.__dict__['_world'] = None

  def __getattr__(self, name):
    real = self.__dict__['_real']
    if real is not None and name not in self.__dict__['_deny'] and hasattr(real, name):
      return getattr(real, name)
    raise AttributeError("'module' object has no attribute '%s'" % name)


# ------------------------------------------------------------------ locks
class SimLock(object):
  reentrant = False
  def __init__(self, w):
    self.w = w
    self.owner = None
    self.count = 0
    self.waiters = []

  def acquire(self, blocking=1, timeout=-1):
    w = self.w
    w.op('acquire')
    me = w.current
    if self.reentrant and self.owner is me:
      self.count += 1
      return True
    deadline = None
    if timeout is not None and timeout >= 0 and blocking:
      deadline = w.now + timeout
    while self.owner is not None:
      if not blocking:
        return False
      w.probe('lock-contended')
      left = None
      if deadline is not None:
        left = deadline - w.now
        if left <= 0:
          return False
      w.wait(self.waiters, 'lock', left)
    self.owner = me
    self.count = 1
    me.held += 1
    return True
  acquire_lock = acquire

  def release(self):
    w = self.w
    if w.ending:
      return
    me = w.current
    if self.reentrant:
      if self.owner is not me:
        raise RuntimeError('cannot release un-acquired lock')
      self.count -= 1
      if self.count:
        return
    elif self.owner is None:
      raise thread_error('release unlocked lock')
    self.owner.held -= 1
    self.owner = None
    for x in self.waiters[:]:
      x.fire('released')
    w.op('release')
  release_lock = release

  def locked(self):
    return self.owner is not None
  locked_lock = locked

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()

  # what threading.Condition expects of an RLock
  def _is_owned(self):
    return self.owner is self.w.current

  def _release_save(self):
    n = self.count
    self.count = 1
    self.release()
    return n

  def _acquire_restore(self, n):
    self.acquire()
    self.count = n


class SimRLock(SimLock):
  reentrant = True

thread_error = real_thread.error


class SimCondition(object):
  def __init__(self, w, lock=None):
    self.w = w
    if lock is None:
      lock = SimRLock(w)
    self.lock = lock
    self.acquire = lock.acquire
    self.release = lock.release
    self.waiters = []

  def __enter__(self):
    return self.lock.__enter__()

  def __exit__(self, *a):
    return self.lock.__exit__(*a)

  def _is_owned(self):
    return self.lock._is_owned()

  def wait(self, timeout=None, balancing=True):
    w = self.w
    if not self._is_owned():
      raise RuntimeError('cannot wait on un-acquired lock')
    x = Waiter(w.current)
    self.waiters.append(x)
    n = self.lock._release_save()
    ev = None
    if timeout is not None:
      ev = w.after(max(0.0, timeout), lambda: x.fire('timeout'), 'cond-timeout')
    r = w.block(x, 'condition')
    if ev is not None:
      ev.cancelled = True
    if x in self.waiters:
      self.waiters.remove(x)
    self.lock._acquire_restore(n)
    return r != 'timeout'

  def notify(self, n=1):
    if not self._is_owned():
      raise RuntimeError('cannot notify on un-acquired lock')
    for x in self.waiters[:n]:
      self.waiters.remove(x)
      x.fire('notified')

  def notifyAll(self):
    self.notify(len(self.waiters))
  notify_all = notifyAll


class SimEvent(object):
  def __init__(self, w):
    self.w = w
    self.flag = False
    self.waiters = []
    self.set_seq = None

  def is_set(self):
    self.w.op('event.is_set')
    return self.flag
  isSet = is_set

  def peek(self):
    return self.flag

  def set(self):
    if self.w.ending:
      return
    self.flag = True
    for x in self.waiters[:]:
      x.fire('set')
    self.w.op('event.set')

  def clear(self):
    if self.w.ending:
      return
    self.flag = False
    self.w.op('event.clear')

  def wait(self, timeout=None, balancing=True):
    self.w.op('event.wait')
    if not self.flag:
      self.w.wait(self.waiters, 'event', timeout)
    return self.flag


class SimSemaphore(object):
  def __init__(self, w, value=1, bounded=False):
    self.w = w
    self.value = value
    self.initial = value
    self.bounded = bounded
    self.waiters = []

  def acquire(self, blocking=1):
    self.w.op('sem.acquire')
    while self.value == 0:
      if not blocking:
        return False
      self.w.wait(self.waiters, 'semaphore')
    self.value -= 1
    return True
  __enter__ = acquire

  def release(self):
    if self.w.ending:
      return
    if self.bounded and self.value >= self.initial:
      raise ValueError('Semaphore released too many times')
    self.value += 1
    for x in self.waiters[:]:
      x.fire('released')
    self.w.op('sem.release')

  def __exit__(self, *a):
    self.release()


class _SimLocal(object):
  def __init__(self, w):
    object.__setattr__(self, '_w', w)
    object.__setattr__(self, '_k', object())

  def _d(self):
    t = object.__getattribute__(self, '_w').current
    return t.locals.setdefault(id(self), {})

  def __getattribute__(self, name):
    if name in ('_d', '__class__'):
      return object.__getattribute__(self, name)
    if name == '__dict__':
      return object.__getattribute__(self, '_d')()
    d = object.__getattribute__(self, '_d')()
    if name in d:
      return d[name]
    return object.__getattribute__(self, name)

  def __setattr__(self, name, v):
    self._d()[name] = v

  def __delattr__(self, name):
    try:
      del self._d()[name]
    except KeyError:
      raise AttributeError(name)


def make_threading(w):
  T = SimModule('threading', real_threading)
  t = SimModule('thread', real_thread)
  t.error = thread_error
  t.LockType = SimLock
  t.allocate_lock = t.allocate = lambda: SimLock(w)

  def start_new_thread(fn, args=(), kw=None):
    if w.start_fault is not None and w.start_fault():
      w.fault('thread-start-failure')
      raise thread_error("can't start new thread")
    x = w.spawn(fn, args, kw, name='thread')
    w.op('start_new_thread')
    return x.id
  t.start_new_thread = t.start_new = start_new_thread

  def exit():
    raise SystemExit()
  t.exit = t.exit_thread = exit
  t.get_ident = lambda: w.current.id
  t._local = lambda: _SimLocal(w)
  t.interrupt_main = None
  t.stack_size = lambda *a: 0

  class Thread(object):
    __n = [0]
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, verbose=None):
      self.__target, self.__args, self.__kw = target, args, kwargs or {}
      Thread.__n[0] += 1
      self.__name = name or 'Thread-%d' % Thread.__n[0]
      self.__daemon = False
      self.__task = None

    def start(self):
      if self.__task is not None:
        raise RuntimeError('threads can only be started once')
      if w.start_fault is not None and w.start_fault():
        w.fault('thread-start-failure')
        raise thread_error("can't start new thread")
      self.__task = w.spawn(self._boot, name=self.__name)
      self.__task.pythread = self
      w.op('thread.start')

    def _boot(self):
      self.run()

    def run(self):
      if self.__target:
        self.__target(*self.__args, **self.__kw)

    def join(self, timeout=None):
      if self.__task is None:
        raise RuntimeError('cannot join thread before it is started')
      w.op('join')
      w.join(self.__task, timeout)

    def isAlive(self):
      return self.__task is not None and self.__task.state != DONE
    is_alive = isAlive

    def getName(self):
      return self.__name

    def setName(self, n):
      self.__name = n
    name = property(getName, setName)

    def isDaemon(self):
      return self.__daemon

    def setDaemon(self, d):
      self.__daemon = d
    daemon = property(isDaemon, setDaemon)

    @property
    def ident(self):
      return self.__task and self.__task.id

  class _Current(object):
    def __init__(self, task):
      self.name = task.name
      self.ident = task.id
      self.daemon = True
    def getName(self):
      return self.name
    def setName(self, n):
      self.name = n
    def isDaemon(self):
      return True
    def setDaemon(self, d):
      pass
    def isAlive(self):
      return True
    is_alive = isAlive
    def join(self, timeout=None):
      raise RuntimeError('cannot join current thread')

  def currentThread():
    x = w.current
    th = getattr(x, 'pythread', None)
    if th is None:
      th = x.pythread = _Current(x)
    return th

  class Timer(Thread):
    def __init__(self, interval, function, args=[], kwargs={}):
      Thread.__init__(self)
      self.interval, self.function, self.args, self.kwargs = interval, function, args, kwargs
      self.finished = SimEvent(w)
    def cancel(self):
      self.finished.set()
    def run(self):
      self.finished.wait(self.interval)
      if not self.finished.is_set():
        self.function(*self.args, **self.kwargs)
      self.finished.set()

  T.Lock = lambda: SimLock(w)
  T.RLock = lambda *a: SimRLock(w)
  T.Condition = lambda lock=None, *a: SimCondition(w, lock)
  T.Event = lambda *a: SimEvent(w)
  T.Semaphore = lambda value=1, *a: SimSemaphore(w, value)
  T.BoundedSemaphore = lambda value=1, *a: SimSemaphore(w, value, True)
  T.Thread = Thread
  T.Timer = Timer
  T.local = lambda: _SimLocal(w)
  T.currentThread = T.current_thread = currentThread
  T.activeCount = T.active_count = lambda: len([x for x in w.tasks if x.state != DONE])
  T.enumerate = lambda: [currentThread()]
  T._sleep = w.sleep
  T._time = lambda: w.now
  T.ThreadError = thread_error
  return t, T


# ------------------------------------------------------------------- time
EPOCH = 1230768000.0     # 2009-01-01 UTC


def make_time(w):
  m = SimModule('time', real_time)
  w.clock_skew = 0.0

  def time():
    w.op('time')
    return EPOCH + w.now + w.clock_skew
  m.time = time
  m.clock = lambda: w.now

  def sleep(d):
    w.op('sleep')
    w.sleep(d)
  m.sleep = sleep
  m.localtime = lambda s=None: real_time.gmtime(EPOCH + w.now + w.clock_skew if s is None else s)
  m.gmtime = lambda s=None: real_time.gmtime(EPOCH + w.now + w.clock_skew if s is None else s)
  m.ctime = lambda s=None: real_time.asctime(m.gmtime(s))
  m.strftime = lambda f, t=None: real_time.strftime(f, t or m.gmtime())
  m.asctime = lambda t=None: real_time.asctime(t or m.gmtime())
  return m


def make_datetime(w):
  m = SimModule('datetime', real_datetime)
  base = real_datetime.datetime(2009, 1, 1)

  class datetime(real_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
      w.op('now')
      return base + real_datetime.timedelta(seconds=w.now + w.clock_skew)
    @classmethod
    def utcnow(cls):
      return cls.now()
    @classmethod
    def today(cls):
      return cls.now()

  class date(real_datetime.date):
    @classmethod
    def today(cls):
      return datetime.now().date()
  m.datetime = datetime
  m.date = date
  return m


def make_random(w):
  m = SimModule('random', real_random)
  r = real_random.Random(w.seed * 7919 + 13)
  m._inst = r
  for n in ('random', 'randint', 'randrange', 'choice', 'shuffle', 'sample', 'uniform',
            'seed', 'gauss', 'getrandbits', 'betavariate', 'expovariate', 'normalvariate',
            'triangular', 'getstate', 'setstate', 'jumpahead'):
    setattr(m, n, getattr(r, n))
  return m


# ---------------------------------------------------------------- logging
class _NullLogger(object):
  def __init__(self, w):
    self.w = w
    self.level = 0
    self.handlers = []
    self.disabled = False
    self.propagate = 1
  def _log(self, *a, **kw):
    pass
  debug = info = warning = warn = error = critical = fatal = log = _log
  def exception(self, msg='', *a, **kw):
    t, v, tb = sys.exc_info()
    if t is not None and not (isinstance(t, type) and issubclass(t, SimKill)):
      self.w.logged.append((getattr(t, '__name__', str(t)), str(v)))
  def addHandler(self, *a): pass
  def removeHandler(self, *a): pass
  def setLevel(self, *a): pass
  def isEnabledFor(self, *a): return False
  def getEffectiveLevel(self): return 50


def make_logging(w):
  m = SimModule('logging', real_logging)
  root = _NullLogger(w)
  for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'fatal', 'log', 'exception'):
    setattr(m, n, getattr(root, n))
  m.getLogger = lambda *a: root
  m.basicConfig = lambda *a, **k: None
  return m


# ---------------------------------------------------------------- sockets
class SockError(IOError):
  pass
SockError.__name__ = 'error'

class SockTimeout(SockError):
  pass
SockTimeout.__name__ = 'timeout'

class SockGai(SockError):
  pass
SockGai.__name__ = 'gaierror'

class SelectError(IOError):
  pass
SelectError.__name__ = 'error'

POLLIN, POLLPRI, POLLOUT, POLLERR, POLLHUP, POLLNVAL = 1, 2, 4, 8, 16, 32


def serr(e, cls=SockError):
  return cls(e, real_os.strerror(e) if hasattr(real_os, 'strerror') else errno.errorcode.get(e, str(e)))


class Net(object):
  """the simulated network; knobs are set per run"""
  def __init__(self, w):
    self.w = w
    self.listeners = {}          # addr -> object with connected(ep)
    self.fds = {}
    self.nextfd = 7
    self.connect_faults = []     # list of exceptions to raise on next connects
    # knobs
    self.latency = 0.01
    self.jitter = 0.0            # extra random delay per segment
    self.seg = 0                 # max segment size, 0 = no segmentation
    self.short_send = 0          # max bytes accepted per send, 0 = all
    self.short_recv = 0          # max bytes returned per recv, 0 = all
    self.sndbuf = 0              # capacity in flight, 0 = unlimited
    self.eintr = 0.0             # probability of EINTR in poll/select
    self.close_wakes = 'error'   # 'error' | 'eof' | 'no'
    self.has_poll = True
    self.bind_faults = []
    self.accept_faults = []
    self.eps = []

  def alloc(self, ep):
    fd = self.nextfd
    self.nextfd += 1
    self.fds[fd] = ep
    return fd

  def listen(self, addr, handler):
    self.listeners[addr] = handler

  def connect(self, addr):
    """called by code under test; returns the client endpoint"""
    w = self.w
    w.op('connect')
    w.sleep(self.latency)
    if self.connect_faults:
      e = self.connect_faults.pop(0)
      if e is not None:
        w.fault('connect-' + errno.errorcode.get(e.args[0], 'gai'))
        raise e
    h = self.listeners.get(addr)
    if h is None:
      raise serr(errno.ECONNREFUSED)
    a, b = Endpoint(self, 'c'), Endpoint(self, 's')
    a.peer, b.peer = b, a
    h.connected(b)
    return a


class Endpoint(object):
  def __init__(self, net, side):
    self.net = net
    self.w = net.w
    self.side = side
    self.inbuf = ''
    self.eof = False
    self.err = None           # errno pending, sticky
    self.closed = False
    self.peer = None
    self.waiters = []         # tasks waiting for readability / writability
    self.on_data = None       # event-driven owners (harness peers)
    self.on_eof = None
    self.last = 0.0           # arrival time of the last byte sent by us
    self.inflight = 0
    self.sent = ''
    self.got = ''
    self.fin_sent = False
    self.call_starts = False     # a sendall() of which nothing is written yet
    self.send_fault = None    # callable(ep, n) -> errno or None, may act
    net.eps.append(self)

  # -- transmission (usable from events and tasks)
  def push(self, data, extra=0.0):
    """put bytes on the wire towards the peer, segmenting and delaying them"""
    net, w = self.net, self.w
    self.sent += data
    i = 0
    while i < len(data):
      if net.seg:
        n = 1 + w.skewed(net.seg - 1, 'seg')
      else:
        n = len(data)
      chunk = data[i:i + n]
      i += n
      if i < len(data):
        w.probe('segmented')
      d = net.latency + extra
      if net.jitter:
        d += net.jitter * w.skewed(8, 'delay')
        if d > net.latency:
          w.probe('delayed')
      t = max(self.last, w.now + d)
      self.last = t
      self.inflight += len(chunk)
      w.at(t, lambda c=chunk: self.peer._arrive(c), 'deliver')

  def _arrive(self, chunk):
    self.peer.inflight -= len(chunk)
    self.peer._wake()
    if self.closed or self.err is not None:
      return
    self.got += chunk
    if self.on_data is not None:
      self.on_data(self, chunk)
      return
    self.inbuf += chunk
    self._wake()

  def push_eof(self, extra=0.0):
    if self.fin_sent:
      return
    self.fin_sent = True
    t = max(self.last, self.w.now + self.net.latency + extra)
    self.last = t
    self.w.at(t, self.peer._arrive_eof, 'fin')

  def _arrive_eof(self):
    if self.closed:
      # peer's FIN still ends a read blocked on a closed descriptor
      self.eof = True
      self._wake()
      return
    self.eof = True
    if self.on_eof is not None:
      self.on_eof(self)
    self._wake()

  def push_reset(self, e=errno.ECONNRESET, extra=0.0, drop=True):
    t = max(self.last, self.w.now + self.net.latency + extra)
    self.last = t
    def f():
      p = self.peer
      if p.closed:
        p.eof = True
        p._wake()
        return
      self.w.fault('reset-' + errno.errorcode[e])
      if drop and p.inbuf:
        self.w.probe('reset-dropped-bytes')
        p.inbuf = ''
      p.err = e
      p._wake()
    self.w.at(t, f, 'reset')
    self.err = e

  def _wake(self):
    for x in self.waiters[:]:
      x.fire('io')

  def readable(self):
    return bool(self.inbuf) or self.eof or self.err is not None

  def do_close(self, wakes):
    if self.closed:
      return
    self.closed = True
    self.push_eof()
    if wakes != 'no':
      self._wake()


class SimSocket(object):
  """socket object handed to code under test"""
  def __init__(self, net, ep=None, addr=None):
    self._net = net
    self._w = net.w
    self._ep = ep
    self._fd = net.alloc(self)
    self._timeout = None
    self._closed = False
    self._backlog = None
    self._addr = addr
    self._connq = []
    self._waiters = []
    self.family, self.type, self.proto = real_socket.AF_INET, real_socket.SOCK_STREAM, 0

  # -- listening side
  def bind(self, addr):
    self._w.op('bind')
    if self._net.bind_faults:
      e = self._net.bind_faults.pop(0)
      self._w.fault('bind-' + errno.errorcode[e])
      raise serr(e)
    self._addr = addr

  def listen(self, n):
    self._w.op('listen')
    self._backlog = n
    self._net.listeners[self._addr] = self
    self._net.note_listen(self._addr)

  def connected(self, ep):
    self._connq.append(ep)
    for x in self._waiters[:]:
      x.fire('conn')

  def accept(self):
    self._w.op('accept')
    if self._net.accept_faults:
      e = self._net.accept_faults.pop(0)
      self._w.fault('accept-' + errno.errorcode[e])
      raise serr(e)
    while not self._connq:
      if self._closed:
        raise serr(errno.EBADF)
      r = self._w.wait(self._waiters, 'accept', self._timeout)
      if r == 'timeout':
        raise SockTimeout('timed out')
    ep = self._connq.pop(0)
    return SimSocket(self._net, ep), ('127.0.0.1', 40000 + self._fd)

  # -- client side
  def connect(self, addr):
    self._ep = self._net.connect(addr)

  def connect_ex(self, addr):
    try:
      self.connect(addr)
      return 0
    except SockError, e:
      return e.args[0]

  def _check(self):
    if self._closed or self._ep is None:
      raise serr(errno.EBADF)

  def send(self, data, flags=0):
    w, net = self._w, self._net
    w.op('send')
    self._check()
    ep = self._ep
    n = len(data)
    if net.short_send and n:
      m = 1 + w.choose(net.short_send, 'short-send')
      if m < n:
        n = m
        w.fault('short-send')
    if ep.send_fault is not None:
      e = ep.send_fault(ep, n)
      if e is not None:
        raise serr(e)
    if ep.err is not None:
      raise serr(ep.err if ep.err == errno.ECONNRESET else errno.EPIPE)
    if ep.peer.closed:
      raise serr(errno.EPIPE)
    if net.sndbuf:
      while ep.inflight + len(ep.peer.inbuf if ep.peer.on_data is None else '') >= net.sndbuf:
        w.probe('send-blocked')
        if self._timeout == 0:
          raise serr(errno.EAGAIN)
        r = w.wait(ep.waiters, 'send', self._timeout)
        if r == 'timeout':
          raise SockTimeout('timed out')
        if self._closed:
          raise serr(errno.EBADF)
        if ep.err is not None or ep.peer.closed:
          raise serr(errno.EPIPE)
      room = net.sndbuf - ep.inflight
      if room < n:
        n = max(1, room)
        w.fault('short-send')
    ep.push(data[:n])
    return n

  def sendall(self, data, flags=0):
    self._w.op('sendall')
    self._check()
    self._ep.call_starts = True
    while data:
      n = self.send(data, flags)
      self._ep.call_starts = False
      data = data[n:]
      if data:
        self._w.op('sendall-part')

  def sendto(self, data, *a):
    return self.send(data)

  def recv(self, n, flags=0):
    w, net = self._w, self._net
    w.op('recv')
    self._check()
    ep = self._ep
    while True:
      if ep.err is not None:
        raise serr(ep.err)
      if ep.inbuf:
        k = min(n, len(ep.inbuf))
        if net.short_recv:
          m = 1 + w.choose(net.short_recv, 'short-recv')
          if m < k:
            k = m
            w.fault('short-recv')
        r = ep.inbuf[:k]
        if not flags & 2:      # MSG_PEEK
          ep.inbuf = ep.inbuf[k:]
          ep.peer._wake()
        w.mix('r%d' % k)
        return r
      if ep.eof:
        return ''
      if self._closed:
        if net.close_wakes == 'error':
          raise serr(errno.EBADF)
        if net.close_wakes == 'eof':
          return ''
      if self._timeout == 0:
        raise serr(errno.EAGAIN)
      r = w.wait(ep.waiters, 'recv', self._timeout)
      if r == 'timeout':
        raise SockTimeout('timed out')

  def recvfrom(self, n, flags=0):
    return self.recv(n, flags), None

  def recv_into(self, buf, n=0, flags=0):
    d = self.recv(n or len(buf), flags)
    buf[:len(d)] = d
    return len(d)

  def shutdown(self, how):
    self._w.op('shutdown')
    self._check()
    ep = self._ep
    if how in (1, 2):
      ep.push_eof()
    if how in (0, 2):
      ep.eof = True
      ep._wake()

  def close(self):
    w = self._w
    if w.ending:
      return
    if self._closed:
      return
    self._closed = True
    self._net.fds.pop(self._fd, None)
    if self._ep is not None:
      self._ep.do_close(self._net.close_wakes)
    if self._backlog is not None:
      if self._net.listeners.get(self._addr) is self:
        del self._net.listeners[self._addr]
      for x in self._waiters[:]:
        x.fire('closed')
    w.note('close')
    w.op('close')

  def fileno(self):
    if self._closed:
      raise serr(errno.EBADF)
    return self._fd

  def settimeout(self, t):
    self._timeout = t

  def gettimeout(self):
    return self._timeout

  def setblocking(self, b):
    self._timeout = None if b else 0

  def setsockopt(self, *a):
    pass

  def getsockopt(self, *a):
    return 0

  def getpeername(self):
    return ('127.0.0.1', 1)

  def getsockname(self):
    return ('127.0.0.1', 2)

  def makefile(self, mode='r', bufsize=-1):
    return _SockFile(self)

  def dup(self):
    return self


class _SockFile(object):
  def __init__(self, s):
    self.s = s
    self.buf = ''
    self.closed = False
  def read(self, n=-1):
    while n < 0 or len(self.buf) < n:
      d = self.s.recv(8192)
      if not d:
        break
      self.buf += d
    if n < 0:
      n = len(self.buf)
    r, self.buf = self.buf[:n], self.buf[n:]
    return r
  def readline(self):
    while '\n' not in self.buf:
      d = self.s.recv(8192)
      if not d:
        break
      self.buf += d
    i = self.buf.find('\n') + 1 or len(self.buf)
    r, self.buf = self.buf[:i], self.buf[i:]
    return r
  def write(self, d):
    self.s.sendall(d)
  def flush(self):
    pass
  def close(self):
    self.closed = True
  def __iter__(self):
    while 1:
      l = self.readline()
      if not l:
        return
      yield l


def make_socket(w, net):
  m = SimModule('socket', None)
  for n in dir(real_socket):
    if n.isupper() and not n.startswith('__'):
      m.__dict__[n] = getattr(real_socket, n)
  for n in ('AF_INET', 'SOCK_STREAM', 'SO_REUSEADDR', 'SOL_SOCKET', 'SHUT_RD', 'SHUT_WR',
            'SHUT_RDWR', 'MSG_PEEK', 'IPPROTO_TCP', 'TCP_NODELAY'):
    m.__dict__.setdefault(n, dict(AF_INET=2, SOCK_STREAM=1, SO_REUSEADDR=2, SOL_SOCKET=1,
      SHUT_RD=0, SHUT_WR=1, SHUT_RDWR=2, MSG_PEEK=2, IPPROTO_TCP=6, TCP_NODELAY=1)[n])
  m.MSG_PEEK = 2
  m.error = SockError
  m.timeout = SockTimeout
  m.gaierror = SockGai
  m.herror = SockGai
  m._GLOBAL_DEFAULT_TIMEOUT = object()
  m._default = [None]
  m.setdefaulttimeout = lambda t: m._default.__setitem__(0, t)
  m.getdefaulttimeout = lambda: m._default[0]
  m.gethostname = lambda: 'sim'
  m.gethostbyname = lambda h: '127.0.0.1'
  m.getservbyname = lambda *a: 23

  def create_connection(addr, timeout=m._GLOBAL_DEFAULT_TIMEOUT, source_address=None):
    s = SimSocket(net)
    try:
      s.connect(addr)
    except:
      s.close()
      raise
    if timeout is not m._GLOBAL_DEFAULT_TIMEOUT:
      s.settimeout(timeout)
    return s
  m.create_connection = create_connection

  def mk(family=None, type=None, proto=0, _sock=None):
    return SimSocket(net)
  m.socket = mk
  m.SocketType = SimSocket
  m.getaddrinfo = lambda host, port, *a: [(2, 1, 6, '', (host, port))]
  net.note_listen = getattr(net, 'note_listen', lambda addr: None)
  return m


def _sock_of(net, x):
  """object or fd -> SimSocket"""
  if isinstance(x, (int, long)):
    fd = x
  else:
    fd = x.fileno()
  return fd, net.fds.get(fd)


def make_select(w, net):
  m = SimModule('select', None)
  m.POLLIN, m.POLLPRI, m.POLLOUT = POLLIN, POLLPRI, POLLOUT
  m.POLLERR, m.POLLHUP, m.POLLNVAL = POLLERR, POLLHUP, POLLNVAL
  m.error = SelectError

  def eintr():
    if net.eintr and w.flip(net.eintr, 'eintr'):
      w.fault('eintr')
      raise serr(errno.EINTR, SelectError)

  def ready_in(s):
    if s._ep is not None:
      return s._ep.readable()
    return bool(s._connq)

  class Poll(object):
    def __init__(self):
      self.reg = {}

    def register(self, fd, mask=POLLIN | POLLPRI | POLLOUT):
      fd, s = _sock_of(net, fd)
      self.reg[fd] = (s, mask)
    modify = register

    def unregister(self, fd):
      fd, s = _sock_of(net, fd)
      del self.reg[fd]

    def scan(self):
      out = []
      for fd in sorted(self.reg):
        s, mask = self.reg[fd]
        if s is None or (s._closed and net.close_wakes == 'error'):
          out.append((fd, POLLNVAL))
        elif s._closed and net.close_wakes == 'eof':
          out.append((fd, POLLIN | POLLHUP))
        else:
          b = 0
          if mask & POLLIN and ready_in(s):
            b |= POLLIN
          if s._ep is not None and s._ep.err is not None:
            b |= POLLERR | (mask & POLLIN)
          if mask & POLLOUT and not s._closed:
            b |= POLLOUT
          if b:
            out.append((fd, b))
      return out

    def poll(self, timeout=None):
      w.op('poll')
      eintr()
      deadline = None
      if timeout is not None and timeout >= 0:
        deadline = w.now + timeout / 1000.0
      while True:
        out = self.scan()
        if out:
          return out
        if deadline is not None and w.now >= deadline:
          return []
        x = Waiter(w.current)
        lists = []
        for s, mask in self.reg.values():
          l = s._ep.waiters if s._ep is not None else s._waiters
          l.append(x)
          lists.append(l)
        ev = None
        if deadline is not None:
          ev = w.at(deadline, lambda: x.fire('timeout'), 'poll-timeout')
        try:
          w.block(x, 'poll')
        finally:
          if ev is not None:
            ev.cancelled = True
          for l in lists:
            if x in l:
              l.remove(x)

  m.poll = Poll

  def select(rl, wl, xl, timeout=None):
    w.op('select')
    eintr()
    deadline = None if timeout is None else w.now + timeout
    pairs = [(o, _sock_of(net, o)[1]) for o in rl]
    for o, s in pairs:
      if s is None:
        raise serr(errno.EBADF, SelectError)
    wout = [o for o in wl]
    while True:
      out = [o for o, s in pairs if s._closed or ready_in(s)]
      if out or wout:
        return out, wout, []
      if deadline is not None and w.now >= deadline:
        return [], [], []
      x = Waiter(w.current)
      lists = []
      for o, s in pairs:
        l = s._ep.waiters if s._ep is not None else s._waiters
        l.append(x)
        lists.append(l)
      ev = None
      if deadline is not None:
        ev = w.at(deadline, lambda: x.fire('timeout'), 'select-timeout')
      try:
        w.block(x, 'select')
      finally:
        if ev is not None:
          ev.cancelled = True
        for l in lists:
          if x in l:
            l.remove(x)
  m.select = select
  if not net.has_poll:
    del m.__dict__['poll']
  return m


# ------------------------------------------------------------------- disk
class Disk(object):
  """in-memory files with read faults"""
  def __init__(self, w):
    self.w = w
    self.files = {}              # path -> str
    self.open_faults = {}        # path -> [errno, ...] raised on successive opens
    self.read_faults = []        # callable(file, pos, n) -> errno or None
    self.short = 0               # max bytes per read, 0 = as asked
    self.handles = []
    self.yield_io = True

  def opened(self):
    return [h for h in self.handles if not h.closed]


class SimFile(object):
  softspace = 0
  def __init__(self, disk, path, mode='r', buffering=-1, universal=False, encoding=None, errors='strict'):
    self._disk = disk
    self._w = disk.w
    self.name, self.mode = path, mode
    self.closed = False
    self._universal = universal or 'U' in mode
    self._decode = encoding, errors or 'strict'
    self._pos = 0
    self._w.op('open')
    q = disk.open_faults.get(path)
    if q:
      e = q.pop(0)
      if e is not None:
        self._w.fault('open-' + errno.errorcode[e])
        raise IOError(e, 'simulated', path)
    if path not in disk.files:
      if 'w' in mode or 'a' in mode:
        disk.files[path] = ''
      else:
        raise IOError(errno.ENOENT, 'No such file or directory', path)
    if 'w' in mode:
      disk.files[path] = ''
    disk.handles.append(self)

  def _data(self):
    """what there is to read, as this file object presents it"""
    d = self._disk.files.get(self.name, '')
    if self._universal:
      d = d.replace('\r\n', '\n').replace('\r', '\n')
    if self._decode[0]:
      d = d.decode(*self._decode)
    return d

  def _check(self):
    if self.closed:
      raise ValueError('I/O operation on closed file')

  def _raw(self, n, short=True):
    """one device read at the current position"""
    w, disk = self._w, self._disk
    w.op('read')
    data = self._data()
    left = data[self._pos:self._pos + n]
    if short and disk.short and len(left) > 1:
      k = 1 + w.choose(disk.short, 'short-read')
      if k < len(left):
        left = left[:k]
        w.fault('short-read')
    for f in disk.read_faults:
      e = f(self, self._pos, len(left))
      if e is not None:
        w.fault('read-' + errno.errorcode[e])
        raise IOError(e, 'simulated', self.name)
    self._pos += len(left)
    return left

  def read(self, n=-1):
    self._check()
    if n is None or n < 0:
      out = self._data()[:0]
      while True:
        d = self._raw(1 << 20)
        if not d:
          return out
        out += d
    return self._raw(n)

  def readline(self, size=-1):
    self._check()
    data = self._data()
    i = data.find('\n', self._pos)
    end = len(data) if i < 0 else i + 1
    if size is not None and size >= 0:
      end = min(end, self._pos + size)
    out = data[:0]
    while self._pos < end:
      d = self._raw(end - self._pos)
      if not d:
        break
      out += d
    if not out:
      self._raw(1, False) if self._pos < len(self._data()) else self._w.op('read')
    return out

  def readlines(self, hint=None):
    out, n = [], 0
    while not hint or hint < 0 or n < hint:
      l = self.readline()
      if not l:
        break
      out.append(l)
      n += len(l)
    return out

  def xreadlines(self):
    return iter(self)

  def __iter__(self):
    return self

  def next(self):
    l = self.readline()
    if not l:
      raise StopIteration
    return l

  def seek(self, off, whence=0):
    self._check()
    self._w.op('seek')
    n = len(self._data())
    p = (0, self._pos, n)[whence] + off
    if p < 0:
      raise IOError(errno.EINVAL, 'Invalid argument')
    self._pos = p

  def tell(self):
    self._check()
    return self._pos

  def write(self, s):
    self._check()
    if self._decode[0]:
      s = s.encode(*self._decode)
    d = self._disk.files[self.name]
    self._disk.files[self.name] = d[:self._pos] + s + d[self._pos + len(s):]
    self._pos += len(s)

  def flush(self):
    pass

  def fileno(self):
    return 1000 + self._disk.handles.index(self)

  def isatty(self):
    return False

  def close(self):
    if self._w.ending:
      return
    if not self.closed:
      self.closed = True
      self._w.op('fclose')

  def __enter__(self):
    self._check()
    return self

  def __exit__(self, *a):
    self.close()


def make_open(disk):
  def sim_open(path, mode='r', buffering=-1):
    return SimFile(disk, path, mode, buffering)
  return sim_open


def make_io_open(disk):
  def io_open(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True):
    if 'b' in mode:
      return SimFile(disk, path, mode, buffering)
    return SimFile(disk, path, mode, buffering, newline is None, encoding or 'utf-8', errors)
  return io_open


def make_codecs_open(disk):
  def codecs_open(path, mode='rb', encoding=None, errors='strict', buffering=1):
    return SimFile(disk, path, mode.replace('U', ''), buffering, False, encoding, errors)
  return codecs_open


class _SimFileType(type):
  pass
