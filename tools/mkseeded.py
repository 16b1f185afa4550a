#!/usr/bin/env python3
"""Development tool: writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the SEEDS table of tools/seeds.py.
No check reads this file or seeded/."""
import difflib, json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import glob, importlib
SEEDS = []
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds*.py'))):
    SEEDS += importlib.import_module(os.path.basename(f)[:-3]).SEEDS

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
only = set(sys.argv[1:])
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    diff = ''
    files = {}
    for path, old, new in s['edits']:
        text = files.get(path) or open('/repo/' + path).read()
        assert text.count(old) == 1, (s['id'], path, old, text.count(old))
        files[path] = text.replace(old, new)
    for path, new in files.items():
        old = open('/repo/' + path).read()
        diff += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import logging\nlogging.disable(logging.CRITICAL)\n' + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
