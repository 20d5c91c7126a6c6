"""DESIGN.md from its head and tail, the property modules, the findings and
the planted bugs."""
import glob
import importlib
import json
import os
import sys
import textwrap

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [top, '/repo']
MISSED = open(os.path.join(top, 'tools/missed.txt')).read().split()


def fill(s, first='', rest=''):
    return textwrap.fill(' '.join(s.split()), 78, initial_indent=first,
                         subsequent_indent=rest, break_long_words=False,
                         break_on_hyphens=False)


def read(n):
    with open(os.path.join(top, n)) as f:
        return f.read()


cost = {}
try:
    cost = json.loads(read('tools/costs.json'))
except OSError:
    pass
out = [read('tools/design_head.md').rstrip(), '', '## The properties', '',
       fill('All are decided by monitors over executions (none is left as '
            'not applicable). Kind is the level claimed; cost is that of the '
            'quick check on 8 idle cores, for the number of cases given.'),
       '']
for ln in read('properties.jsonl').splitlines():
    p = json.loads(ln)
    pid = p['id']
    m = importlib.import_module('rv.props.' + pid.lower())
    out += ['### %s %s' % (pid, p['title']), '']
    out.append(fill('Decided by: ' + m.RULE, '* ', '  '))
    if getattr(m, 'ASSUME', None):
        out.append(fill('Bounds and assumptions: ' + '; '.join(m.ASSUME) +
                        '.', '* ', '  '))
    out.append(fill('Why the tests can not settle it: ' +
                    p['why_tests_cant'], '* ', '  '))
    c = cost.get(pid)
    out.append('* Kind: ' + m.LEVEL + (
        '; cost: %d s, %d evaluations, %d distinct non-trivial.' % tuple(c)
        if c else '.'))
    out.append('')
tail = read('tools/design_tail.md')
kf = json.loads(read('known_findings.json'))
kf = kf['findings'] if isinstance(kf, dict) else kf
fixes = '\n'.join(fill('%s (%s): %s' % (
    k['property'], k['commit'], k['what'].split(k['commit'])[-1].strip()),
    '* ', '  ') for k in kf)
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(top, 'seeded/*/meta.json'))):
    j = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s%s | %s | %s | %s |' % (
        i, '*' if i in MISSED else '', j['what_it_breaks'].replace('|', '/'),
        j['needs'].replace('|', '/'), j['property']))
out.append(tail.replace('@FIXES@', fixes).replace('@SEEDS@', '\n'.join(rows)))
with open(os.path.join(top, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
