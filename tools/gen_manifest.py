#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from config import CHECKS
PURE = ('a pure function of its arguments (no thread, clock, randomness, I/O or other party is involved), so there is no '
        'schedule or fault for a simulator to decide; searching its inputs would be another technique')
NA = {
 'N01': PURE + ' (matches saved as IDs and restored after crashes are K01)', 'N02': PURE, 'N03': PURE, 'N04': PURE + ' (the disk side of the databases is B01)',
 'N05': PURE + ' (the stateful side of the formatter is W01 and W02)',
 'N06': PURE + ' (loading sheets from disk is C01)', 'N07': PURE + ' (drawing state and faults are D01)',
 'N08': PURE + ' (the stateful side of moves is M03)', 'N09': PURE + ' (the random tournament built on it is T01)',
 'N10': PURE + ' (the order of lines, digests and reading are R01)',
 'N11': 'the graphical and network players need wxPython, which is not installed; the wx event loop is the program and '
        'no stub of it would leave real code to decide',
}
NOTE = {
 'trust': 'Trusted: the simulator in /verif/dst (scheduler, stand-ins for the listed stubbed components) and the oracle; '
          'runs under the same Jython as the tests. Every failure is shrunk, replayed in a fresh process and only then reported.',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS:
            c = CHECKS[i]
            checks.append(dict(
                property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                evidence_file='evidence/%s.json' % i,
                technique='deterministic simulation with fault injection: seeded search over schedules, faults and workloads',
                level=c['level'],
                level_note='Sampled assurance: %d seeded simulated runs per quick check (%d thorough); no exhaustive claim. %s '
                           'Stubbed: %s. %s' % (c['quick'], c['thorough'], c.get('note', ''), '; '.join(c['stub']), NOTE['trust'])))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'claimed later in this work; its check is not built yet')))
    m = dict(version=1,
             setup_cmd='python3 check.py --setup',
             checks=checks, not_applicable=na,
             notes='No hooks in /repo: every seam (socket, select, threading, thread, Queue, time, random, os, open, PIL, ...) '
                   'is a module the code imports, replaced per simulated run by dst/loader.py. /repo carries only fix: commits; '
                   'see known_findings.json and DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
