# -*- coding: us-ascii -*-
"""F01: the fuzz driver isolates, times out and reports each trial and leaks nothing.

Processes are simulated: fork() starts a second simulated process that
re-executes the driver from its start with the recorded results of every system
call made so far (so it reaches the same point with the same memory), and gets 0
from fork.  Each process has its own copy of every module and its own
descriptor table.
"""
import sys
import errno
import os as real_os
import loader
import simmods
from kernel import Violation, Waiter, DONE, BLOCKED


class ProcExit(BaseException):
  """the process is gone"""


class Pipe(object):
  def __init__(self):
    self.data = ''
    self.readers = 0
    self.writers = 0
    self.waiters = []

  def wake(self):
    for x in self.waiters[:]:
      x.fire('io')


class Proc(object):
  def __init__(self, case, pid, parent, log, fds):
    self.case, self.w = case, case.w
    self.pid, self.parent = pid, parent
    self.log = log             # [(syscall, result)] to replay first
    self.pos = 0
    self.fds = fds             # fd -> ('r'|'w', Pipe)
    for k, (m, p) in fds.items():
      if m == 'r': p.readers += 1
      else: p.writers += 1
    self.dead = None           # exit status
    self.reaped = False
    self.out = []
    self.buf = ''              # printed, not yet written
    self.parsed = []
    self.waiters = []
    self.fate = None
    self.forked_at = None
    self.killed = False

  def flush(self):
    self.out.append(self.buf)
    self.buf = ''

  @property
  def replaying(self):
    return self.pos < len(self.log)

  def call(self, name, fn):
    """one system call"""
    w = self.w
    if self.dead is not None:
      raise ProcExit()
    if self.pos < len(self.log):
      n, r = self.log[self.pos]
      if n != name:
        raise Violation('harness', 'replay mismatch %s/%s' % (n, name))
      self.pos += 1
      if isinstance(r, Exception):
        raise r
      return r
    w.op(name)
    if self.dead is not None:
      raise ProcExit()
    try:
      r = fn()
    except (OSError, IOError), e:
      self.log.append((name, e))
      self.pos += 1
      raise
    if self.dead is not None:
      raise ProcExit()
    self.log.append((name, r))
    self.pos += 1
    return r

  def die(self, status):
    if self.dead is not None:
      return
    self.dead = status
    self.died_at = self.w.now
    self.w.rec('dies', pid=self.pid, status=status)
    for fd in sorted(self.fds):
      self.close_fd(fd)
    for x in self.waiters + self.parent_waiters():
      x.fire('child')

  def parent_waiters(self):
    return self.parent.waiters if self.parent is not None else []

  def close_fd(self, fd):
    if fd not in self.fds:
      raise OSError(errno.EBADF, 'Bad file descriptor')
    m, p = self.fds.pop(fd)
    if m == 'r': p.readers -= 1
    else: p.writers -= 1
    p.wake()

  def new_fd(self, end):
    fd = 3
    while fd in self.fds:
      fd += 1
    self.fds[fd] = end
    if end[0] == 'r': end[1].readers += 1
    else: end[1].writers += 1
    return fd


DENY = [n for n in dir(real_os) if n not in
        ('path', 'sep', 'linesep', 'name', 'curdir', 'pardir', 'extsep', 'error', 'strerror', 'environ', 'getcwd',
         'devnull', 'pathsep', 'altsep') and not n.startswith('O_') and not n.startswith('W')]


def make_os(proc):
  case, w = proc.case, proc.w
  m = simmods.SimModule('os', real_os, DENY)

  def pipe():
    def f():
      p = Pipe()
      case.pipes += 1
      return proc.new_fd(('r', p)), proc.new_fd(('w', p))
    return proc.call('pipe', f)

  def fork():
    if proc.replaying:
      return proc.call('fork', None)
    if proc.parent is not None:
      raise Violation('child-forks', 'the child of a trial goes on to the next one')
    def f():
      case.attempts.append((w.now, proc.pid))
      if w.flip(case.p_fork_fails, 'fork fails'):
        w.fault('fork-EAGAIN')
        raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
      if len(case.procs) > 60:
        raise Violation('fork-storm', '%d processes' % len(case.procs))
      child = Proc(case, 100 + len(case.procs), proc, list(proc.log) + [('fork', 0)], dict(proc.fds))
      child.forked_at = w.now
      child.buf = proc.buf
      case.procs.append(child)
      child.task = w.spawn(case.process, (child,), name='pid%d' % child.pid)
      w.rec('fork', pid=proc.pid, child=child.pid)
      return child.pid
    return proc.call('fork', f)

  def close(fd):
    return proc.call('close', lambda: proc.close_fd(fd))

  def write(fd, s):
    def f():
      e = proc.fds.get(fd)
      if e is None or e[0] != 'w':
        raise OSError(errno.EBADF, 'Bad file descriptor')
      if e[1].readers == 0:
        raise OSError(errno.EPIPE, 'Broken pipe')
      e[1].data += s
      e[1].wake()
      return len(s)
    return proc.call('write', f)

  def read(fd, n):
    def f():
      e = proc.fds.get(fd)
      if e is None or e[0] != 'r':
        raise OSError(errno.EBADF, 'Bad file descriptor')
      while not e[1].data and e[1].writers:
        x = Waiter(w.current)
        e[1].waiters.append(x)
        w.block(x, 'pipe read')
        e[1].waiters.remove(x)
      r, e[1].data = e[1].data[:n], e[1].data[n:]
      return r
    return proc.call('read', f)

  def kill(pid, sig):
    def f():
      case.kills.append((proc.pid, pid, sig, w.now))
      w.rec('kill', pid=proc.pid, target=pid, sig=sig)
      for p in case.procs:
        if p.pid == pid and not p.reaped:
          if p.dead is None and sig:
            p.killed = True
            p.die(-sig)
          return None
      raise OSError(errno.ESRCH, 'No such process')
    return proc.call('kill', f)

  def waitpid(pid, options=0):
    def f():
      while True:
        kids = [p for p in case.procs if p.parent is proc and not p.reaped and (pid <= 0 or p.pid == pid)]
        if not kids:
          raise OSError(errno.ECHILD, 'No child processes')
        for p in kids:
          if p.dead is not None:
            p.reaped = True
            w.rec('reap', pid=p.pid)
            return p.pid, p.dead
        if options & 1:
          return 0, 0
        x = Waiter(w.current)
        proc.waiters.append(x)
        w.block(x, 'waitpid')
        if x in proc.waiters:
          proc.waiters.remove(x)
    return proc.call('waitpid', f)

  def _exit(status):
    proc.call('_exit', lambda: None)
    proc.die(status)
    raise ProcExit()
  m.pipe, m.fork, m.close, m.write, m.read, m.kill, m.waitpid, m._exit = pipe, fork, close, write, read, kill, waitpid, _exit
  m.wait = lambda: waitpid(-1)
  m.getpid = lambda: proc.pid
  m.getppid = lambda: proc.parent and proc.parent.pid or 1
  m.WNOHANG = 1
  m.error = OSError
  return m


def make_select(proc):
  case, w = proc.case, proc.w
  m = simmods.SimModule('select', None)
  m.error = simmods.SelectError

  def select(rl, wl, xl, timeout=None):
    def f():
      deadline = None if timeout is None else w.now + timeout
      ends = []
      for fd in rl:
        e = proc.fds.get(fd)
        if e is None:
          raise simmods.serr(errno.EBADF, simmods.SelectError)
        ends.append((fd, e[1]))
      while True:
        ready = [fd for fd, p in ends if p.data or p.writers == 0]
        if ready or wl:
          return ready, list(wl), []
        if deadline is not None and w.now >= deadline:
          return [], [], []
        x = Waiter(w.current)
        for fd, p in ends:
          p.waiters.append(x)
        ev = None
        if deadline is not None:
          ev = w.at(deadline, lambda: x.fire('timeout'), 'select-timeout')
        w.block(x, 'select')
        if ev is not None:
          ev.cancelled = True
        for fd, p in ends:
          if x in p.waiters:
            p.waiters.remove(x)
    return proc.call('select', f)
  m.select = select

  class Poll(object):
    def __init__(self):
      self.fds = []
    def register(self, fd, mask=1):
      self.fds.append(fd)
    def unregister(self, fd):
      self.fds.remove(fd)
    def poll(self, ms=None):
      r, a, b = select(self.fds, [], [], None if ms is None or ms < 0 else ms / 1000.0)
      return [(fd, 1) for fd in r]
  m.poll = Poll
  m.POLLIN, m.POLLHUP, m.POLLERR, m.POLLPRI = 1, 16, 8, 2
  return m


def make_time(proc):
  w = proc.w
  m = simmods.SimModule('time', simmods.real_time, ('sleep', 'time', 'clock'))
  m.sleep = lambda d: proc.call('sleep', lambda: w.sleep(d))
  m.time = m.clock = lambda: proc.call('time', lambda: simmods.EPOCH + w.now)
  return m


class Out(object):
  """stdout of whichever simulated process is printing, with stdio's buffer: by
  lines on a terminal, by blocks into a file or a pipe.  The buffer is part of
  the process: fork copies it, os._exit and a signal lose it, a normal end
  writes it out."""
  softspace = 0
  encoding = None
  def __init__(self, w):
    self.w = w
  def proc(self):
    c = self.w.current
    p = c is not None and getattr(c, 'proc', None)
    return p and p.dead is None and not p.replaying and p or None
  def write(self, s):
    p = self.proc()
    if p:
      p.buf += s
      if p.case.tty:
        n = p.buf.rfind('\n') + 1
      else:
        n = len(p.buf) // 4096 * 4096
      p.out.append(p.buf[:n])
      p.buf = p.buf[n:]
  def flush(self):
    p = self.proc()
    if p:
      p.flush()
  def writelines(self, l):
    for x in l:
      self.write(x)
  def isatty(self):
    p = self.proc()
    return bool(p and p.case.tty)
  def fileno(self):
    return 1


class BadInput(Exception):
  pass


FATES = ['fine', 'slowish', 'parse-error', 'html-error', 'bad-html', 'hang', 'late', 'crash', 'no-html', 'quick-hang']


class Formatter(object):
  """what the documents meet; each child draws its own fate when it starts parsing"""
  def __init__(self, proc):
    self.proc = proc
    self.case = proc.case

  def parse(self, text):
    p, w = self.proc, self.proc.w
    p.parsed.append(text)
    w.rec('parse', pid=p.pid, text=text)
    if p.parent is None:
      p.fate = 'in-parent'
      return
    p.fate = f = self.case.fates[min(len(self.case.fates) - 1, p.pid - 101)]
    w.fault('child-' + f)
    self.nap(f == 'slowish' and 2.5 or 0.01)
    if f in ('hang', 'quick-hang'):
      self.nap(1e9)
    if f == 'late':
      self.nap(4.0)
    if f == 'crash':
      p.die(-11)
      raise ProcExit()
    if f == 'parse-error':
      raise BadInput('cannot parse')

  def nap(self, d):
    self.proc.w.sleep(d)
    if self.proc.dead is not None:
      raise ProcExit()

  def make_html(self):
    f = self.proc.fate
    if f == 'html-error':
      raise BadInput('cannot render')
    if f == 'bad-html':
      return '<p>unclosed'
    if f == 'no-html':
      return ''
    return '<p>x</p>'


class Case(object):
  def __init__(self, w):
    self.w = w
    w.tune(preempts=w.pick([0, 1, 4]), gap=w.pick([20, 100]), p_switch=w.pick([0, 60, 140]), stall=0.0)
    self.trials = w.flip(0.03, 'plenty') and 20 or w.skewed(5, 'trials')
    self.tty = w.flip(0.5, 'stdout is a terminal')
    self.length = w.rand_int(0, 6, 'length')
    self.fates = [w.pick(FATES, 'fate') for i in range(max(1, self.trials))]
    self.p_fork_fails = w.pick([0.0, 0.0, 0.3], 'fork')
    self.rseed = w.choose(10000, 'rng')
    self.procs = []
    self.pipes = 0
    self.attempts = []
    self.kills = []

  def process(self, proc):
    w = self.w
    task = w.current
    task.proc = proc
    env = loader.Env(w)
    proc.env = env
    env.sim['os'] = make_os(proc)
    env.sim['select'] = make_select(proc)
    env.sim['time'] = make_time(proc)
    import random
    r = random.Random(self.rseed)
    m = env.sim['random']
    for n in ('random', 'randint', 'randrange', 'choice', 'shuffle', 'sample', 'uniform', 'seed', 'getrandbits'):
      setattr(m, n, getattr(r, n))
    s = simmods.SimModule('sys', sys, ('exit',))
    s.argv = ['fuzz', str(self.length), str(self.trials)]
    s.stdout = s.stderr = Out(w)
    def sysexit(*a):
      raise SystemExit(*a)
    s.exit = sysexit
    env.sim['sys'] = s
    fuzzing = env.load('bglib.doc.fuzzing')
    class G(fuzzing.Gene):
      single = list('abcdefgh')
      multi = []
    try:
      fuzzing.fuzz_it(G, Formatter(proc))
      w.rec('driver-returns', pid=proc.pid)
      if proc.dead is None:
        proc.flush()           # as the interpreter ends
      proc.returned = True
    except ProcExit:
      return
    except (Violation, SystemExit):
      raise
    except Exception, e:
      if proc.parent is None:
        raise
      w.rec('child-traceback', pid=proc.pid, err=repr(e))
      proc.traceback = e
    if proc.dead is None and proc.parent is not None:
      proc.flush()
      # the child's interpreter exits after a traceback or after returning from the driver
      proc.die(1)

  def main(self):
    sys.stdout = Out(self.w)
    p = Proc(self, 100, None, [], {})
    self.procs.append(p)
    self.process(p)

  def require(self, cond, kind, detail=''):
    if not cond:
      raise Violation(kind, detail)

  def judge(self):
    w = self.w
    root = self.procs[0]
    left = [x for x in w.left_info if x[0] == 'main']
    self.require(not left, 'driver-stuck', repr(w.left_info))
    self.require(getattr(root, 'returned', False), 'driver-died', 'did not return')
    roots = [a for a in self.attempts if a[1] == 100]
    self.require(len(roots) == self.trials, 'attempts', '%d attempts for %d trials' % (len(roots), self.trials))
    self.require(len(self.attempts) == self.trials, 'child-forks', 'children forked too: %r' % (self.attempts,))
    self.require(not root.parsed, 'not-isolated', 'document parsed in the driver itself')
    self.require(not root.fds, 'descriptor-leak', 'left open in the driver: %r' % sorted(root.fds))
    zombies = [p.pid for p in self.procs[1:] if p.dead is not None and not p.reaped]
    self.require(not zombies, 'zombies', 'never reaped: %r' % zombies)
    out = ''.join(root.out)
    reports = out.split('timed out')[1:]
    expected = [p for p in self.procs[1:] if p.fate in ('hang', 'quick-hang', 'late')]
    for a, pid, sig, t in self.kills:
      ps = [p for p in self.procs[1:] if p.pid == pid]
      self.require(ps and ps[0].parent is root and a == 100, 'wrong-process-killed', repr((a, pid)))
      self.require(ps[0] in expected, 'finished-child-killed', 'pid %d (%s)' % (pid, ps[0].fate))
      self.require(t - ps[0].forked_at >= 2.999, 'killed-early', 'after %.3f s' % (t - ps[0].forked_at))
      self.require(t - ps[0].forked_at <= 3.5, 'killed-late', 'after %.3f s' % (t - ps[0].forked_at))
    self.require(len(reports) == len(expected), 'timeout-reports',
                 '%d reported, %d children were busy for three seconds: %r' % (len(reports), len(expected), [p.fate for p in self.procs[1:]]))
    for p, r in zip(expected, reports):
      self.require(p.killed, 'not-killed', 'pid %d still busy, never killed' % p.pid)
      self.require(not p.parsed or repr(p.parsed[0]) in r, 'report-without-document', '%r not in %r' % (p.parsed, r))
    for p in self.procs[1:]:
      if p.fate is None and p.dead is None:
        raise Violation('child-lost', 'pid %d never ran' % p.pid)
      self.require(p.dead is not None, 'child-left-running', 'pid %d (%s)' % (p.pid, p.fate))
      self.require(len(p.parsed) == 1, 'documents-per-child', 'pid %d parsed %r' % (p.pid, p.parsed))
      self.require(len(p.parsed[0]) == self.length, 'document-length', repr(p.parsed))
      o = ''.join(p.out)
      self.require('timed out' not in o, 'report-twice', "the driver's report came out of pid %d too" % p.pid)
      if p.fate in ('parse-error', 'html-error', 'bad-html'):
        self.require(repr(p.parsed[0]) in o, 'failure-without-document', 'child said %r' % o)
        self.require(p.dead == 1, 'wrong-status', 'failing child exits %r' % p.dead)
        if p.fate != 'bad-html':
          self.require('cannot' in o, 'failure-without-error', 'child said %r' % o)
      elif p.fate in ('fine', 'slowish'):
        self.require(p.dead == 0, 'wrong-status', 'good child exits %r' % p.dead)
        self.require(repr(p.parsed[0]) not in o, 'false-report', o)
    docs = [p.parsed[0] for p in self.procs[1:]]
    if self.length >= 6 and len(docs) > 2:
      self.require(len(set(docs)) > 1, 'same-document', 'every trial got %r' % docs[0])

  def nontrivial(self):
    return len(self.procs) > 1

  def sample(self):
    return dict(trials=self.trials, children=[(p.pid, p.fate, p.dead, p.parsed) for p in self.procs[1:]],
                kills=[k[1:3] for k in self.kills], attempts=len(self.attempts))
