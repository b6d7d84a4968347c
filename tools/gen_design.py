#!/opt/venv/bin/python
"""Write DESIGN.md (see tools/design_head.md)."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import symx  # noqa: E402,F401
from props import PROPS  # noqa: E402
import importlib  # noqa: E402

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
add = out.append
flat = lambda s: ' '.join(s.split())
add('## The properties\n')
add('Cost is that of the last quick run recorded in `evidence/` (8 cores); '
    '"encoded" counts the functions of ghedt executed symbolically.\n')
kept = os.path.join(HERE, 'tools', 'cost.json')
cost = json.load(open(kept)) if os.path.exists(kept) else {}
for p in PROPS:
    i = p['id']
    mod = importlib.import_module('checks.' + i.lower())
    ev = os.path.join(HERE, 'evidence', i + '.json')
    if os.path.exists(ev):
        d = json.load(open(ev))
        c = d['coverage']
        if d['tier'] == 'quick':
            cost[i] = [c['cases'], c['states'], c['obligations_checked'],
                       c['solver_queries'], round(c['solver_seconds'], 1),
                       len(c['functions_encoded'])]
    add('### %s %s' % (i, p['title']))
    add(flat(p['statement']) + '\n')
    add('* **over** ' + flat(p['q']))
    add('* **encoded** ' + ', '.join('`%s`' % a for a, _ in p['mech']) +
        ' (' + ', '.join('`%s`' % f for f in p['files']) + ')')
    add('* **bounds** ' + flat(mod.BOUNDS))
    q = len(mod.cases('quick'))
    t = len(mod.cases('thorough'))
    add('* **cases** %d quick, %d thorough' % (q, t))
    if mod.ASSUMPTIONS:
        add('* **assumed** ' + '; '.join(flat(a) for a in mod.ASSUMPTIONS))
    add('* **oracle** the assertions of `checks/%s.py`; ' % i.lower() +
        flat(p['note']))
    add('* **why the tests cannot** ' + flat(p['why']))
    if i in cost:
        a = cost[i]
        add('* **cost** %d cases, %d paths, %d obligations, %d queries, %s s '
            'in the solver, %d functions encoded' % tuple(a))
    add('')
json.dump(cost, open(kept, 'w'), indent=0, sort_keys=True)
add('## Genuine defects\n')
fx, fi = [], []
for line in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
    if m:
        fx.append(m.groups())
    m = re.match(r'finding: property=(\S+) case=(\S+) label="([^"]*)" (.*)',
                 line)
    if m:
        fi.append(m.groups())
add('Repaired in `/repo` (one `fix:` commit each; a check reports the '
    'violation again if it returns -- tried by reverse-applying the commit):\n')
add('| property | commit | what failed |\n|---|---|---|')
for a, b, c in fx:
    add('| %s | %s | %s |' % (a, b, c))
add('\nRecorded, not repaired (the tests pin the numbers that follow from '
    'them); the check prints `KNOWN-FINDING` for exactly this case and '
    'assertion and still reports any other violation:\n')
add('| property | case | what fails |\n|---|---|---|')
for a, b, c, d in fi:
    add('| %s | %s | %s |' % (a, b, d))
add('\n' + open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(f)), m['property'], flat(m['needs']),
        flat(m['what_it_breaks'])))
add('## Planted bugs kept in `seeded/`\n')
add('Each is caught by the check of its property (exit 1, replayed).\n')
add('| seed | caught by | needs | breaks |\n|---|---|---|---|')
out += rows
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(PROPS), 'properties', len(rows), 'seeds')
