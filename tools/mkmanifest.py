"""Write MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [top, '/repo']
props = [json.loads(ln) for ln in open(os.path.join(top,
                                                    'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(top, 'rv/props/%s.py' % pid.lower())):
        na.append(dict(property=pid, reason='not built yet'))
        continue
    m = importlib.import_module('rv.props.' + pid.lower())
    tech = getattr(m, 'TECHNIQUE', None) or (
        'runtime monitoring of the real code under generated hostile '
        'workloads, reference model oracle')
    note = ('Held on every execution observed; not a proof. ' + m.RULE)
    if getattr(m, 'ASSUME', None):
        note += ' Assumes: ' + '; '.join(m.ASSUME) + '.'
    checks.append(dict(property=pid, quick_cmd='./check %s' % pid,
                       thorough_cmd='./check %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique=tech, level=m.LEVEL, level_note=note))
man = dict(version=1,
           setup_cmd='./check --smoke', checks=checks, not_applicable=na,
           notes='Pure python, no build: the checks import channelpack from '
           '/repo as it is in the working tree. See DESIGN.md.')
with open(os.path.join(top, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
