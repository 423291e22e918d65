# -*- coding: us-ascii -*-
"""Loads fresh copies of the code under test into a World, with every source
of nondeterminism replaced by its simulated counterpart.

Only import statements executed by code loaded here are redirected; the harness
and third-party libraries keep the real modules.
"""
import sys
import os
import types
import zipfile
import __builtin__
import kernel
import simmods

REPO = os.environ.get('VERIF_REPO', '/repo')
_codes = {}
_real_import = __builtin__.__import__
_zip = [None]


def _stdlib_source(name):
  if _zip[0] is None:
    for p in ('/usr/share/java/jython-2.7.3.jar', '/usr/share/java/jython.jar'):
      if os.path.exists(p):
        _zip[0] = zipfile.ZipFile(p)
        break
  return _zip[0].read('Lib/%s.py' % name)


def _code(path, src=None):
  c = _codes.get(path)
  if c is None:
    if src is None:
      f = open(path, 'rb')
      try:
        src = f.read()
      finally:
        f.close()
    c = _codes[path] = compile(src.replace('\r\n', '\n') + '\n', kernel.TRACED + path, 'exec')
  return c


def _import(name, g=None, l=None, fromlist=None, level=-1):
  if g is not None:
    env = g.get('__simenv__')
    if env is not None:
      return env.do_import(name, g, fromlist, level)
  return _real_import(name, g, l, fromlist, level)

__builtin__.__import__ = _import


class Env(object):
  """module space of one World"""
  def __init__(self, w, stubs=None, traced_stdlib=('telnetlib', 'Queue')):
    self.w = w
    w.start_fault = None
    self.net = simmods.Net(w)
    self.disk = simmods.Disk(w)
    self.loaded = {}
    self.sim = {}
    t, T = simmods.make_threading(w)
    self.sim['thread'] = t
    self.sim['threading'] = T
    self.sim['dummy_threading'] = T
    self.sim['time'] = simmods.make_time(w)
    self.sim['datetime'] = simmods.make_datetime(w)
    self.sim['random'] = simmods.make_random(w)
    self.sim['logging'] = simmods.make_logging(w)
    self.sim['socket'] = simmods.make_socket(w, self.net)
    self._select = None
    self.builtins_extra = {}
    self.stdlib = traced_stdlib
    if stubs:
      self.sim.update(stubs)
    self.sim_open = simmods.make_open(self.disk)

  def use_disk(self):
    """route file()/open() of the loaded code to the simulated disk"""
    self.builtins_extra['file'] = self.sim_open
    self.builtins_extra['open'] = self.sim_open
    io = simmods.SimModule('io', _real_import('io'))
    io.open = simmods.make_io_open(self.disk)
    self.sim['io'] = io
    codecs = simmods.SimModule('codecs', _real_import('codecs'))
    codecs.open = simmods.make_codecs_open(self.disk)
    self.sim['codecs'] = codecs

  # -- import machinery
  def do_import(self, name, g, fromlist, level):
    top = name.split('.')[0]
    if top == 'select' and 'select' not in self.sim:
      self.sim['select'] = simmods.make_select(self.w, self.net)
    pkg = g.get('__package__')
    if pkg is None:
      pkg = g['__name__'] if '__path__' in g else g['__name__'].rpartition('.')[0]
    tries = []
    if level > 0:
      base = pkg.split('.')
      if level > 1:
        base = base[:-(level - 1)]
      tries.append('.'.join(base + ([name] if name else [])))
    else:
      if level == -1 and pkg:
        tries.append(pkg + '.' + name)
      tries.append(name)
    for full in tries:
      if full.split('.')[0] in self.sim and full == name:
        m = self.sim[top]
        if '.' in name and not fromlist:
          return m
        for part in name.split('.')[1:]:
          m = getattr(m, part)
        return m
      if full in self.loaded or self.find(full):
        leaf = self.load(full)
        if fromlist:
          for n in fromlist:
            if n != '*' and not hasattr(leaf, n) and self.find(full + '.' + n):
              self.load(full + '.' + n)
          return leaf
        # "import a.b.c" binds the first component as written
        if full == name:
          return self.loaded[top]
        return self.loaded[full[:len(full) - len(name)] + top]
    return _real_import(name, g, None, fromlist, 0)

  def find(self, full):
    parts = full.split('.')
    if parts[0] == 'bglib':
      p = os.path.join(REPO, *parts)
      if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py')
      if os.path.isfile(p + '.py'):
        return p + '.py'
      return None
    if full in self.stdlib:
      return 'stdlib:' + full
    return None

  def load(self, full):
    m = self.loaded.get(full)
    if m is not None:
      return m
    parent = None
    if '.' in full:
      parent = self.load(full.rpartition('.')[0])
      m = self.loaded.get(full)
      if m is not None:
        return m
    path = self.find(full)
    if path is None:
      raise ImportError('No module named ' + full)
    m = types.ModuleType(full)
    g = m.__dict__
    g['__simenv__'] = self
    g['__file__'] = path
    g.update(self.builtins_extra)
    self.loaded[full] = m
    if path.startswith('stdlib:'):
      # a finaliser would run on the collector's thread, at a time no seed decides
      code = _code(path, _stdlib_source(full).replace('def __del__', 'def _no_del_')
                   if path not in _codes else None)
    else:
      code = _code(path)
      if path.endswith('__init__.py'):
        g['__path__'] = [os.path.dirname(path)]
    try:
      exec code in g
    except:
      self.loaded.pop(full, None)
      raise
    if parent is not None:
      setattr(parent, full.rpartition('.')[2], m)
    return m

  def script(self, path, **extra):
    """run a source file as a script (module executed for its effects)"""
    m = types.ModuleType('__main__')
    g = m.__dict__
    g['__simenv__'] = self
    g['__package__'] = ''
    g['__file__'] = path
    g.update(self.builtins_extra)
    g.update(extra)
    exec _code(path) in g
    return m


class Null(object):
  softspace = 0
  def write(self, s):
    pass
  def flush(self):
    pass
  def writelines(self, l):
    pass
