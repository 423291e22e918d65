#!/usr/bin/env python3
"""Deterministic-simulation checks: python3 check.py ID | --replay FILE | --selftest [ID...] | --setup

Runs one property's check: eight Jython workers explore seeded simulated runs of
the code in /repo, a failure is shrunk, written to replays/ and confirmed in a
fresh process.  exit 0: held on everything explored; 1: VIOLATION; 2: harness error.
"""
import json, os, subprocess, sys, tempfile, time, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import CHECKS

JY = os.environ.get('VERIF_JYTHON', '/opt/jy/jy')
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d['findings'] if k['property'] == prop]


def jy_env(scratch):
    env = dict(os.environ)
    env['JYTHONPATH'] = '/opt/bgsite:' + os.path.join(scratch, 'java')
    env['VERIF_REPO'] = REPO
    env.pop('JAVA_TOOL_OPTIONS', None)
    return env


def build(scratch):
    d = os.path.join(scratch, 'java')
    os.mkdir(d)
    r = subprocess.run(['javac', '-cp', '/usr/share/java/jython.jar', '-d', d,
                        os.path.join(HERE, 'dst', 'java', 'SimTracer.java')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True)
    if r.returncode:
        print('HARNESS-ERROR: javac: ' + r.stdout[-2000:])
        sys.exit(2)
    return d


def start(mode, job, scratch, tag):
    jp = os.path.join(scratch, tag + '.json')
    job['out'] = os.path.join(scratch, tag + '.out')
    with open(jp, 'w') as f:
        json.dump(job, f)
    log = open(os.path.join(scratch, tag + '.log'), 'w')
    p = subprocess.Popen([JY, '-B', os.path.join(HERE, 'dst', 'runner.py'), mode, jp],
                         stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                         env=jy_env(scratch), cwd=scratch, start_new_session=True)
    p.tag, p.job, p.logpath = tag, job, log.name
    return p


def finish(p, deadline):
    """the worker's result, or an error text"""
    try:
        p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, 'worker %s ran out of time' % p.tag
    out = p.job['out']
    if p.returncode != 0 or not os.path.exists(out):
        with open(p.logpath, errors='replace') as f:
            tail = f.read()[-3000:]
        return None, 'worker %s ended with %s: %s' % (p.tag, p.returncode, tail)
    with open(out) as f:
        return json.load(f), None


def merge(results):
    m = dict(runs=0, switches=0, steps=0, events=0, sim_time=0.0, faults={}, fault_runs={}, probes={},
             probe_runs={}, outcomes={}, known={}, samples=[], demo={})
    hs, nt = set(), set()
    for r in results:
        for k in ('runs', 'switches', 'steps', 'events', 'sim_time'):
            m[k] += r[k]
        for k in ('faults', 'fault_runs', 'probes', 'probe_runs', 'outcomes', 'known'):
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
        m['demo'].update(r.get('demo', {}))
        m['samples'] += r['samples'][:1]
        hs.update(r['hashes'])
        nt.update(r['nontrivial'])
    return m, hs, nt


def explore(prop, tier, seed, scratch, workers=WORKERS, log=False, count=None):
    c = CHECKS[prop]
    known = known_findings(prop)
    open_known = [k for k in known if k.get('status') != 'fixed']
    n = count or c[tier]
    wall = 240 if tier == 'quick' else c.get('thorough_wall', 1800)
    stop = os.path.join(scratch, 'stop')
    procs = []
    for k in range(workers):
        job = dict(property=prop, module=c['module'], base=seed, start=k, stride=workers, count=n,
                   wall=wall, stop=stop, shrink=45 if tier == 'quick' else 120, log=log,
                   known=[dict(id=x['id'], kind=x['kind'], detail=x['detail']) for x in open_known],
                   demos=[x['id'] for x in open_known] if k == 0 else [])
        procs.append(start('explore', job, scratch, 'w%d' % k))
    deadline = time.time() + wall + 240
    results, errors = [], []
    for p in procs:
        r, e = finish(p, deadline)
        if e:
            errors.append(e)
        else:
            results.append(r)
            if r['error']:
                errors.append(r['error'])
    return results, errors, open_known


def confirm(v, scratch, tag):
    job = dict(property=v['property'], module=v['module'], replay=v)
    p = start('replay', job, scratch, tag)
    return finish(p, time.time() + 200)


def write_evidence(prop, tier, seed, c, m, hs, nt, wall, violations, errors):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    hours = max(wall, 0.001) / 3600
    cov = dict(
        evaluations=m['runs'], distinct_nontrivial=len(nt), rule=c['rule'],
        samples=m['samples'] or ['none'],
        simulated_runs_per_hour=int(m['runs'] / hours), seeds_per_hour=int(m['runs'] / hours),
        simulated_seconds=round(m['sim_time'], 3), scheduler_steps=m['steps'],
        context_switches=m['switches'], events_fired=m['events'],
        faults_injected=m['faults'], runs_with_fault=m['fault_runs'],
        probes_hit=m['probes'], runs_with_probe=m['probe_runs'],
        distinct_interleavings=len(hs),
        interleaving_measure='distinct 48-bit hashes over every scheduling decision, blocking operation, '
                             'fired event and fault of a run',
        outcomes=m['outcomes'], real_components=c['real'], stubbed_components=c['stub'],
        known_findings_seen=m['known'], harness_errors=errors[:3])
    ev = dict(property=prop, tier=tier, seed=seed, level=c['level'], coverage=cov, wall_s=round(wall, 2),
              assumptions=c.get('assumptions', []), violations=violations)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[prop]
    t0 = time.time()
    print('%s: seed %d, tier %s, %d runs on %d workers' % (prop, seed, tier, c[tier], WORKERS), flush=True)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        build(scratch)
        results, errors, known = explore(prop, tier, seed, scratch)
        viols = [r['violation'] for r in results if r['violation']]
        confirmed = []
        rdir = os.environ.get('VERIF_REPLAYS', os.path.join(HERE, 'replays'))
        viols.sort(key=lambda v: len(v['choices']))
        for i, v in enumerate(viols[:3]):
            os.makedirs(rdir, exist_ok=True)
            r, e = confirm(v, scratch, 'r%d' % i)
            if e:
                errors.append('confirmation: ' + e)
                continue
            good = [x for x in r if x['same']]
            hung = [x for x in r if x['outcome'] == 'hung'] if v['kind'] == 'hang' else []
            if not good and not hung:
                errors.append('violation %s of seed %s did not replay' % (v['kind'], v['seed']))
                continue
            if good and good[0]['which'] == 'unshrunk':
                v['choices'], v['hash'] = v['unshrunk'], v['unshrunk_hash']
                v['run'] = good[0]
            path = os.path.join(rdir, '%s-%d-%s.json' % (prop, v['seed'], v['hash'][:6]))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            confirmed.append((v, path))
            break
        m, hs, nt = merge(results) if results else (merge([]))
        wall = time.time() - t0
        write_evidence(prop, tier, seed, c, m, hs, nt, wall, len(confirmed), errors)
        print('%s: %d runs, %d distinct interleavings, %d non-trivial, %.0f simulated s, faults %s, %.1f s'
              % (prop, m['runs'], len(hs), len(nt), m['sim_time'], json.dumps(m['faults'], sort_keys=True), wall))
        for k in known:
            if m['demo'].get(k['id']) or m['known'].get(k['id']):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if confirmed:
            v, path = confirmed[0]
            print('  kind: %s' % v['kind'])
            print('  detail: %s' % v['detail'][:1500])
            print('  choices: %d (from %d)' % (len(v['choices']), len(v['unshrunk'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if errors:
            for e in errors[:3]:
                print('HARNESS-ERROR: %s' % e)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        build(scratch)
        r, e = confirm(v, scratch, 'r')
        if e:
            print('HARNESS-ERROR: ' + e)
            return 2
        d = r[0]
        for line in d['trace']:
            print(line)
        for line in d['history']:
            print(line)
        print(json.dumps(d.get('case'), indent=1))
        print('violation: %s' % json.dumps(d['violation']))
        print('exact reproduction: %s (hash %s, recorded %s)' % (d['same'], d['hash'], v['hash']))
        if d.get('error'):
            print('HARNESS-ERROR: ' + d['error'])
            return 2
        if d['violation']:
            print('VIOLATION property=%s replay=%s' % (v['property'], path))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """nothing is kept between runs; this only shows that the tools are there"""
    scratch = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        build(scratch)
        return subprocess.call([JY, '-B', '-c', 'import SimTracer, runner'], stdin=subprocess.DEVNULL,
                               env=dict(jy_env(scratch), JYTHONPATH=os.path.join(scratch, 'java') + ':' +
                                        os.path.join(HERE, 'dst')), cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(props, count=400):
    """every seed twice, in other processes and at another worker count: the logs must be equal"""
    bad = 0
    for prop in props or sorted(CHECKS):
        logs = []
        for workers, seed in ((8, 3), (5, 3), (3, 3)):
            scratch = tempfile.mkdtemp(prefix='verif-self-')
            try:
                build(scratch)
                res, errors, _ = explore(prop, 'quick', seed, scratch, workers, True, count)
                rows = {}
                for r in res:
                    for row in r.get('log', []):
                        rows[row[0]] = row
                logs.append(rows)
                if errors:
                    print(prop, 'ERRORS', errors[:1])
                    bad += 1
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        diff = [s for s in logs[0] if any(l.get(s) != logs[0][s] for l in logs[1:])]
        print('%s: %d seeds x %d process layouts, %d differ %s' % (prop, len(logs[0]), len(logs), len(diff), diff[:5]),
              flush=True)
        bad += len(diff)
    return 1 if bad else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        sys.exit(replay(a[1]))
    if a == ['--setup']:
        sys.exit(setup())
    if a[:1] == ['--selftest']:
        sys.exit(selftest(a[1:]))
    if len(a) != 1 or a[0] not in CHECKS:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(a[0]))
