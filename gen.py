#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/lib')
from props import PROPS, NA
from checks import CHECKS
TECH = 'symbolic execution of the LLVM bitcode of /repo with SMT (z3) deciding every branch and assertion; counterexamples replayed natively'
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import build; build.engine()"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'], 'technique': TECH, 'level': CHECKS[p['id']]['level'],
                 'level_note': ('Decided for all values within: %s. Outside: %s. Trusts: clang -O1 translation and the engine, the models of the C/C++ runtime%s.' % (CHECKS[p['id']]['bounds'], CHECKS[p['id']].get('outside') or 'nothing stated', ''.join('; ' + a for a in CHECKS[p['id']].get('assumptions', []))))}
                for p in PROPS if p['id'] in CHECKS],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no check has been built for it')} for p in PROPS if p['id'] not in CHECKS]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties,', len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')

# the table of properties in DESIGN.md
from how import HOW
d = V + '/DESIGN.md'; t = open(d).read(); A, B = '<!-- table -->\n', '<!-- end of table -->\n'
if A in t:
    rows = []
    for p in PROPS:
        c = CHECKS.get(p['id'])
        if not c: rows.append('### %s %s\n\nNot claimed: %s\n' % (p['id'], p['title'], NA.get(p['id'], ''))); continue
        es = []
        for e in c['entries']:
            n = '%s:%s' % (e['harness'], e['entry'])
            if n not in es: es.append(n)
        rows.append('### %s %s\n\n* Decided by: %s (%s).\n* Bounds: %s.\n* Outside: %s.\n' % (p['id'], p['title'], HOW[p['id']], ', '.join(es), c['bounds'], c.get('outside', '')))
    open(d, 'w').write(t[:t.index(A)] + A + '\n'.join(rows) + t[t.index(B):])
