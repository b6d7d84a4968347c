#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS
PY = '/opt/venv/bin/python -W ignore run_check.py '
NA = {}
if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')):
    NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'],
            'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}})
            + '\n')
        if p['id'] in NA:
            na.append({'property': p['id'], 'reason': NA[p['id']]})
        elif os.path.exists(os.path.join(HERE, 'checks',
                                         p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'], 'quick_cmd': PY + p['id'],
                'thorough_cmd': PY + p['id'] + ' --tier thorough',
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'symbolic execution of the Python source with z3',
                'level': 'model_checking',
                'level_note': 'bounded: every value of the symbolic inputs on '
                'every path within the bounds printed in the evidence; floats '
                'taken as reals, counterexamples and sampled paths re-run on '
                'the unmodified code. ' + p['note']})
        else:
            na.append({'property': p['id'],
                       'reason': 'no check built yet in this revision'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -W ignore -c "import symx, z3, numpy, '
                  'scipy; print(z3.get_version_string())"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Design and findings: DESIGN.md, '
              'known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
