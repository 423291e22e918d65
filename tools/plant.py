#!/usr/bin/env python3
"""Development aid: python3 tools/plant.py ID... -- tries planted bugs in a scratch copy of /repo.

For each /verif/seeded/ID: demo passes unpatched and fails patched, the patched tree keeps the stable
tests, and the property's quick check reports it.  Nothing in /repo is touched.
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def sh(cmd, cwd, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, 'TIMEOUT'

def tests(tree, scratch):
    env = dict(os.environ, JYTHONPATH='/opt/bgsite:' + tree)
    x = os.path.join(scratch, 'nose.xml')
    sh(['/opt/jy/jy', '-B', '-c', 'import nose; nose.main()', '--with-xunit', '--xunit-file=' + x, 'bglib'], tree, env)
    o = os.path.join(scratch, 'o.json')
    sh(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x], tree)
    passed = set(json.load(open(o))['passed'])
    return [t for t in STABLE if t not in passed]

def one(i, quick):
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = tempfile.mkdtemp(prefix='plant')
    try:
        tree = os.path.join(scratch, 'repo')
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git'))
        demo = os.path.join(scratch, 'demo')
        shutil.copytree(d, demo)
        a, out = sh(['sh', os.path.join(demo, 'demo.sh')], tree, timeout=300)
        if a != 0:
            return 'BAD demo fails unpatched: %d %s' % (a, out[-600:])
        r, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], tree)
        if r:
            return 'BAD patch: ' + out
        b, out = sh(['sh', os.path.join(demo, 'demo.sh')], tree, timeout=300)
        if b == 0:
            return 'BAD demo passes patched'
        if not quick:
            bad = tests(tree, scratch)
            if bad:
                return 'BAD tests: %s' % bad[:4]
        t = time.time()
        env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1', VERIF_TIER='quick')
        c, out = sh(['python3', 'check.py', meta['property']], HERE, env)
        v = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % meta['property'])]
        kind = [l for l in out.splitlines() if l.startswith('  ')][:2]
        return '%s exit %d %.0f s %s' % ('caught' if c == 1 and v else 'MISSED', c, time.time() - t, ' '.join(kind)[:260])
    finally:
        shutil.rmtree(scratch)

if __name__ == '__main__':
    quick = '-q' in sys.argv
    ids = [a for a in sys.argv[1:] if a != '-q'] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        print(i, one(i, quick), flush=True)
