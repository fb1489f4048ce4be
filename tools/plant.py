#!/usr/bin/env python3
"""dev tool: plant.py ID FILE  <<< JSON {property, needs, what_it_breaks, old, new, demo}: writes seeded/ID"""
import sys, json, os, subprocess, tempfile, shutil
sid = sys.argv[1]
d = eval(sys.stdin.read())
root = '/verif/seeded/' + sid
os.makedirs(root, exist_ok=True)
edits = d.get('edits') or [(d['file'], d['old'], d['new'])]
w = tempfile.mkdtemp(prefix='plant_')
diff = ''
try:
    byfile = {}
    for f, o, n in edits:
        s = byfile.get(f) or open('/repo/' + f).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        byfile[f] = s.replace(o, n)
    for f, s in byfile.items():
        p = os.path.join(w, 'b', f)
        os.makedirs(os.path.dirname(p))if not os.path.isdir(os.path.dirname(p)) else None
        open(p, 'w').write(s)
        q = os.path.join(w, 'a', f)
        os.makedirs(os.path.dirname(q)) if not os.path.isdir(os.path.dirname(q)) else None
        shutil.copy('/repo/' + f, q)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w, capture_output=True, text=True)
    diff = r.stdout
finally:
    shutil.rmtree(w)
open(root + '/patch.diff', 'w').write(diff)
assert subprocess.run(['git', '-C', '/repo', 'apply', '--check', root + '/patch.diff']).returncode == 0
demo = d['demo']
open(root + '/demo.py', 'w').write(demo)
open(root + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken (cwd /repo, after the build)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME=$work MPLCONFIGDIR=$work XDG_CACHE_HOME=$work
cd "$work" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['what']), open(root + '/meta.json', 'w'), indent=1)
