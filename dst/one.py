# -*- coding: us-ascii -*-
"""debug helper: one.py MODULE SEED [N]"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
mod = __import__(sys.argv[1])
a = int(sys.argv[2]); n = len(sys.argv) > 3 and int(sys.argv[3]) or 1
verbose = n == 1
t0 = time.time()
kinds = {}
faults, probes = {}, {}
nt = 0
for s in range(a, a + n):
  if os.environ.get("STOP") and len(kinds) > ('ok' in kinds):
    break
  t = time.time(); sys.stderr.write(verbose and " " or os.environ.get("V") and "%d " % s or "")
  r = runner.run_one(mod, s)
  dt = time.time() - t
  top = max(globals().get('top', (0, 0)), (r.w.steps, s))
  if dt > 1.0 and s > a:
    print 'slow', s, dt
  k = r.error and 'ERROR' or (r.violation and r.violation[0]) or 'ok'
  kinds[k] = kinds.get(k, 0) + 1
  for x in r.w.faults: faults[x] = faults.get(x, 0) + 1
  for x in r.w.probes: probes[x] = probes.get(x, 0) + 1
  if k == 'ok':
    nt += bool(r.case.nontrivial())
  elif kinds[k] <= 2 or k == 'ERROR' and kinds[k] <= 2:
    print s, k, (r.error or r.violation[1])[:3000], r.w.outcome
    if verbose:
      d = runner.describe(r)
      print '\n'.join(d['trace'][-60:])
      print '\n'.join(d['history'][-60:])
      print d['tasks']
      print d.get('case')
print kinds, 'nontrivial', nt, '%.2f ms/run' % ((time.time() - t0) * 1000 / n)
print 'most steps', top, 'of', getattr(mod, 'MAX_STEPS', 3000000)
print 'faults', faults
print 'probes', probes
os._exit(0)
