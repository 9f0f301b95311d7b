#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
assert set(PROPS) | set(NOT_APPLICABLE) == set(ids), set(PROPS) ^ set(ids)
TECH = 'bounded symbolic execution of the compiled code (Kani/CBMC: rustc MIR to SAT/SMT), counterexamples replayed natively'
m = {
    'version': 1,
    'setup_cmd': 'sh tools/setup.sh',
    'hooks': {
        'guard': 'cfg(binate_verif)',
        'enable': 'RUSTFLAGS="--cfg binate_verif" BINATE_VERIF=/verif/harness/src/hooks.rs (set by tools/check.py)',
        'source_commits': ['36623c8'],
    },
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'technique': TECH,
        'level': 'other',
        'level_note': 'decided by SAT/SMT for every value within: ' + PROPS[i]['bounds'],
    } for i in ids if i in PROPS],
    'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE],
    'notes': 'See DESIGN.md. Each check builds in a scratch directory of its own from /repo and /verif.',
}
m['hooks']['source_commits'] = [os.popen('git -C /repo rev-parse %s' % c).read().strip() for c in m['hooks']['source_commits']]
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

COST = dict(C01=190, C02=45, C03=120, C04=90, C05=50, C06=120, C07=270, C08=100, C09=45, C10=50, C11=20, C12=50, P01=40, P02=30,
            P03=190, P04=25, B01=140, B02=85, W01=30, T01=20, S01=20, R01=30, M01=100, M02=70, M03=75, E01=45)
rows = ['| property | what is decided | bounds | harnesses | quick, s |', '|---|---|---|---|---|']
for i in ids:
    p = PROPS[i]
    rows.append('| %s | %s | %s | %d | %s |' % (i, p['covers'], p['bounds'], p['expect'], COST.get(i, '')))
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
a, b = s.index('<!-- table -->') + len('<!-- table -->'), s.index('<!-- end -->')
open(f, 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
