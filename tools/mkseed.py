"""mkseed.py SPEC.py [ID...]: make seeded/<id>/ from a spec file.

A spec file has SEEDS, a list of dicts: id, property, needs, breaks, edits
(list of (file, old, new)), demo (python source).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = runpy.run_path(sys.argv[1])['SEEDS']
DEMO = '''#!/bin/bash
# run with cwd in the repository
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for s in seeds:
    if sys.argv[2:] and s['id'] not in sys.argv[2:]:
        continue
    d = os.path.join(top, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for fn, old, new in s['edits']:
            p = os.path.join(w, 'r', 'channelpack', fn)
            with open(p, encoding='utf-8', newline='') as f:
                src = f.read()
            if src.count(old) != 1:
                raise SystemExit('%s: %d matches in %s of %r' % (
                    s['id'], src.count(old), fn, old))
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(src.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=w + '/r')
    finally:
        shutil.rmtree(w)
    with open(d + '/patch.diff', 'wb') as f:
        f.write(diff)
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/demo.py', 'w') as f:
        f.write(s['demo'].lstrip('\n'))
    for fn in s.get('files', ()):
        shutil.copy(os.path.join(top, 'rv', fn), d)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']), f, indent=1)
        f.write('\n')
    print(s['id'], len(diff), 'bytes')
