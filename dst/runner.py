# -*- coding: us-ascii -*-
"""Worker (Jython): explores seeds of one check, shrinks and replays failures.

usage: runner.py explore JOB.json   |   runner.py replay JOB.json
"""
import sys
import os
import re
import json
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
sys.dont_write_bytecode = True

import kernel
from kernel import World, Violation
re._MAXCACHE = 2000


class Result(object):
  __slots__ = ('w', 'case', 'violation', 'error', 'hung')


def run_one(mod, seed, replay=None):
  """one simulated execution; a pure function of (code, seed, replay)"""
  r = Result()
  r.violation = r.error = None
  r.hung = False
  w = r.w = World(seed, replay, max_steps=getattr(mod, 'MAX_STEPS', 3000000))
  r.case = None
  out, err = sys.stdout, sys.stderr
  sys.stdout = sys.stderr = _null
  try:
    try:
      case = r.case = mod.Case(w)
      w.run(case.main)
      if w.outcome == 'hung':
        r.hung = True
        r.violation = ('hang', 'the run stopped making progress at all')
        return r
      if w.violation is not None:
        r.violation = w.violation
        return r
      for e in w.errors:
        r.error = e
        return r
      for t in w.tasks:
        if t.exc is not None:
          if len(t.exc) == 3 and not t.exc[2]:       # a Java error
            r.violation = ('unexpected-exception', '%s in %s' % (t.exc[0], t.name))
          elif getattr(t, 'exc_in_code', False):
            r.violation = ('unexpected-exception', '%s: %s in %s\n%s' % (t.exc[0], t.exc[1], t.name, t.exc[2]))
          else:
            r.error = 'task %s: %s' % (t.name, t.exc[2])
          return r
      if w.outcome == 'step-limit' and not getattr(mod, 'STEP_LIMIT_OK', False):
        r.violation = ('no-progress', 'still busy after %d steps: %s' % (w.steps,
                       [(t.name, t.state, t.why) for t in w.left]))
        return r
      case.judge()
    except Violation, e:
      r.violation = (e.kind, e.detail)
    except:
      r.error = traceback.format_exc()
  finally:
    sys.stdout, sys.stderr = out, err
  return r


class _Null(object):
  softspace = 0
  def write(self, s): pass
  def flush(self): pass
  def writelines(self, l): pass
_null = _Null()


def clean(x):
  """json-safe text"""
  if isinstance(x, str):
    return x.decode('latin-1')
  if isinstance(x, dict):
    return dict((clean(str(k)), clean(v)) for k, v in x.items())
  if isinstance(x, (list, tuple)):
    return [clean(v) for v in x]
  if x is None or isinstance(x, (int, long, float, bool, unicode)):
    return x
  return clean(repr(x))


def known_id(job, v):
  for k in job.get('known', []):
    if k.get('kind') == v[0] and re.search(k.get('detail', ''), clean(str(v[1]))):
      return k['id']
  return None


def shrink(mod, seed, choices, kind, budget, log):
  """smallest choice list found that still ends in the same kind of violation"""
  t0 = time.time()
  best = list(choices)
  tried = [0]

  def fails(c):
    tried[0] += 1
    r = run_one(mod, seed, c)
    if r.hung:
      return None
    if r.violation is not None and r.violation[0] == kind:
      n = list(r.w.choices)
      while n and n[-1] == 0:
        n.pop()
      return n
    return None

  def smaller(a, b):
    return (len(a), sum(a)) < (len(b), sum(b))

  n = fails(best)
  if n is not None and not smaller(best, n):
    best = n
  progress = True
  while progress and time.time() - t0 < budget:
    progress = False
    # cut the tail, then chunks
    size = max(1, len(best) // 2)
    while size and time.time() - t0 < budget:
      i = len(best) - size
      while i >= 0 and time.time() - t0 < budget:
        n = fails(best[:i] + best[i + size:])
        if n is not None and smaller(n, best):
          best = n
          progress = True
          i = min(i, len(best) - size)
        else:
          i -= size
        if i < 0 and i > -size and size > 1:
          break
      size //= 2
    # zero chunks
    size = max(1, len(best) // 4)
    while size and time.time() - t0 < budget:
      i = 0
      while i < len(best) and time.time() - t0 < budget:
        if any(best[i:i + size]):
          n = fails(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
          if n is not None and smaller(n, best):
            best = n
            progress = True
        i += size
      size //= 2
    # lower single values
    i = 0
    while i < len(best) and time.time() - t0 < budget:
      while i < len(best) and best[i] > 1 and time.time() - t0 < budget:
        for v in (best[i] // 2, best[i] - 1):
          n = fails(best[:i] + [v] + best[i + 1:])
          if n is not None and smaller(n, best):
            best = n
            progress = True
            break
        else:
          break
      i += 1
  log['shrink_runs'] = tried[0]
  log['shrunk_from'] = len(choices)
  log['shrunk_to'] = len(best)
  return best


def describe(r):
  w = r.w
  d = {'violation': {'kind': r.violation[0], 'detail': r.violation[1]} if r.violation else None,
       'outcome': w.outcome, 'hash': '%012x' % w.sched_hash, 'steps': w.steps, 'switches': w.switches,
       'sim_time': w.now, 'faults': w.faults,
       'tasks': [repr(t) for t in w.tasks],
       'history': [repr(h) for h in w.history[:400]],
       'trace': w.trace[:1500]}
  if r.case is not None and hasattr(r.case, 'sample'):
    try:
      d['case'] = r.case.sample()
    except:
      d['case'] = traceback.format_exc()
  return clean(d)


def explore(job):
  mod = __import__(job['module'])
  t0 = time.time()
  st = dict(runs=0, switches=0, steps=0, sim_time=0.0, events=0, faults={}, fault_runs={}, probes={},
            probe_runs={}, outcomes={}, samples=[], known={}, error=None, violation=None, kinds={})
  hashes, nontrivial = set(), set()
  i = job['start']
  while i < job['count']:
    if time.time() - t0 > job['wall'] or (st['runs'] % 8 == 0 and os.path.exists(job['stop'])):
      st['stopped'] = True
      break
    seed = job['base'] * 1000003 + i
    r = run_one(mod, seed)
    w = r.w
    st['runs'] += 1
    st['switches'] += w.switches
    st['steps'] += w.steps
    st['events'] += w.events_fired
    st['sim_time'] += w.now
    for k, v in w.faults.items():
      st['faults'][k] = st['faults'].get(k, 0) + v
      st['fault_runs'][k] = st['fault_runs'].get(k, 0) + 1
    for k, v in w.probes.items():
      st['probes'][k] = st['probes'].get(k, 0) + v
      st['probe_runs'][k] = st['probe_runs'].get(k, 0) + 1
    st['outcomes'][str(w.outcome)] = st['outcomes'].get(str(w.outcome), 0) + 1
    hashes.add(w.sched_hash)
    if job.get('log'):
      st.setdefault('log', []).append([seed, '%012x' % w.sched_hash, w.hseq, w.steps, len(w.choices),
                                       kernel.hash_str(repr(w.history))])
    if r.error is not None:
      st['error'] = 'seed %d: %s' % (seed, clean(r.error))
      break
    if r.violation is not None:
      k = known_id(job, r.violation)
      if k is not None:
        st['known'][k] = st['known'].get(k, 0) + 1
      else:
        st['violation'] = report(job, mod, seed, r)
        open(job['stop'], 'w').close()
        break
    elif r.case.nontrivial():
      nontrivial.add(w.sched_hash)
      if len(st['samples']) < 2:
        st['samples'].append(clean(dict(seed=seed, case=r.case.sample(), switches=w.switches,
                                        faults=w.faults, sim_time=round(w.now, 3))))
    i += job['stride']
  for fid in job.get('demos', []):
    # reproduce each listed finding on purpose
    r = run_one(_Demo(mod, fid), 0)
    ok = r.violation is not None and known_id(job, r.violation) == fid
    st.setdefault('demo', {})[fid] = bool(ok)
    if r.error:
      st['error'] = st['error'] or clean(r.error)
    if r.violation is not None and not ok and st['violation'] is None:
      st['violation'] = report(job, mod, 0, r)
  st['hashes'] = ['%x' % h for h in hashes]
  st['nontrivial'] = ['%x' % h for h in nontrivial]
  st['wall'] = time.time() - t0
  return clean(st)


class _Demo(object):
  """a check module whose Case is a directed reproduction"""
  def __init__(self, mod, fid):
    self.MAX_STEPS = getattr(mod, 'MAX_STEPS', 3000000)
    self.STEP_LIMIT_OK = getattr(mod, 'STEP_LIMIT_OK', False)
    self.Case = mod.DEMOS[fid]


def report(job, mod, seed, r):
  log = {}
  first = describe(r)
  v = {'property': job['property'], 'module': job['module'], 'seed': seed,
       'kind': r.violation[0], 'detail': clean(str(r.violation[1])),
       'unshrunk': list(r.w.choices), 'unshrunk_hash': '%012x' % r.w.sched_hash}
  v['choices'] = v['unshrunk']
  final = r
  if not r.hung:
    best = shrink(mod, seed, r.w.choices, r.violation[0], job.get('shrink', 60), log)
    r2 = run_one(mod, seed, best)
    if r2.violation is not None and r2.violation[0] == r.violation[0]:
      v['choices'] = best
      v['detail'] = clean(str(r2.violation[1]))
      final = r2
  v['shrink'] = log
  v['hash'] = '%012x' % final.w.sched_hash
  v['run'] = describe(final)
  return v


def replay(job):
  mod = __import__(job['module'])
  v = job['replay']
  out = []
  for key, h in (('choices', v['hash']), ('unshrunk', v['unshrunk_hash'])):
    r = run_one(mod, v['seed'], [int(x) for x in v[key]])
    d = describe(r)
    d['which'] = key
    if r.error:
      d['error'] = clean(r.error)
    d['same'] = bool(r.violation is not None and r.violation[0] == v['kind'] and d['hash'] == h)
    out.append(d)
    if d['same'] or r.hung:
      break
  return out


def main():
  f = open(sys.argv[2])
  job = json.load(f)
  f.close()
  job = dict((str(k), v) for k, v in job.items())
  job['module'] = str(job['module'])
  if sys.argv[1] == 'explore':
    res = explore(job)
  else:
    res = replay(job)
  f = open(job['out'] + '.tmp', 'w')
  json.dump(res, f)
  f.close()
  os.rename(job['out'] + '.tmp', job['out'])
  sys.stdout.flush()
  os._exit(0)

if __name__ == '__main__':
  main()
