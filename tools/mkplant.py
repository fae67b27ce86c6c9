#!/usr/bin/env python3
"""mkplant.py ID PROPERTY FILE  (stdin: JSON {old, new, needs, breaks, demo})  -> seeded/ID (scratch copy only, /repo untouched)"""
import json, os, shutil, subprocess, sys, tempfile
ID, prop, path = sys.argv[1:4]
d = eval(sys.stdin.read())
D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
edits = d['edits'] if 'edits' in d else [(path, d['old'], d['new'])]
tmp = tempfile.mkdtemp()
out = ''
for p in sorted({e[0] for e in edits}):
    s = open('/repo/' + p).read()
    o = s
    for q, old, new in edits:
        if q == p:
            assert s.count(old) == 1, (p, s.count(old))
            s = s.replace(old, new)
    os.makedirs(tmp + '/a/' + os.path.dirname(p), exist_ok=True)
    os.makedirs(tmp + '/b/' + os.path.dirname(p), exist_ok=True)
    open(tmp + '/a/' + p, 'w').write(o)
    open(tmp + '/b/' + p, 'w').write(s)
    r = subprocess.run(['diff', '-u', 'a/' + p, 'b/' + p], cwd=tmp, capture_output=True, text=True)
    l = r.stdout.split('\n')
    l[0], l[1] = '--- a/' + p, '+++ b/' + p
    out += 'diff --git a/%s b/%s\n' % (p, p) + '\n'.join(l)
shutil.rmtree(tmp)
open(D + '/patch.diff', 'w').write(out)
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(D + '/meta.json', 'w'), indent=1)
open(D + '/demo.py', 'w').write(d['demo'])
shutil.copy('/verif/tools/demo/simlib.py', D)
open(D + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds on this example; run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(D + '/demo.sh', 0o755)
