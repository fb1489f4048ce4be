#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import P, NA
from harness import registry

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for pid in sorted(list(P) + [x for x in NA if x in NA]):
        d = P.get(pid) or NA[pid]
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 3, pid
        f.write(json.dumps(dict(
            id=pid, title=d['title'], statement=d['statement'],
            quantifier=dict(over=d.get('over', ['inputs']), text=d['forall']),
            why_tests_cant=d['tests'],
            anchors=dict(files=d['files'], mechanism=[dict(name=a, where=b) for a, b in d['mech']]))) + '\n')

checks = []
for pid in sorted(P):
    R = registry.PROPS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % pid,
        thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='symbolic execution of the real source + z3 (bounded, counterexamples replayed on the real code)',
        level=R['level'],
        level_note='Bounded: %s. Trusts: %s.' % (R['bounds'], '; '.join(R['assumptions'] + ['reals instead of floats', 'the NumPy model of the engine (spot-validated against real NumPy on path models)']))))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0, \'.\'); import symx.core, harness.registry"',
         checks=checks,
         not_applicable=[dict(property=k, reason=v['reason']) for k, v in sorted(NA.items())],
         notes='One command per property: check.py runs every harness instance of the property (harness/p_*.py) in parallel; '
               'each executes the functions of /repo symbolically and discharges the assertions with z3. No hooks in /repo.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')

# the property table of DESIGN.md
src = open(os.path.join(ROOT, 'tools', 'design.md')).read()
rows = ['| id | decided how | bounds | outside the claim |', '|---|---|---|---|']
for pid in sorted(P):
    R = registry.PROPS[pid]
    rows.append('| %s %s | %s: `%s` | %s | %s |' % (pid, P[pid]['title'], 'symbolic execution + z3 of', '`, `'.join(R['functions']), R['bounds'],
                '; '.join(R.get('outside', [])) or 'sizes beyond the bounds; rounding'))
for pid in sorted(NA):
    rows.append('| %s %s | not applicable: %s | - | - |' % (pid, NA[pid]['title'], NA[pid]['reason']))
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
seeded = ['| id | property, caught by its check | needs | what it breaks |', '|---|---|---|---|']
sd = os.path.join(ROOT, 'seeded')
for b in sorted(os.listdir(sd)):
    meta = json.load(open(os.path.join(sd, b, 'meta.json')))
    seeded.append('| %s | %s | %s | %s |' % (b, meta['property'], meta['needs'].replace('|', '/'), meta['what_it_breaks'].replace('|', '/')))
src = src.replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDED@@', '\n'.join(seeded))
src = src.replace('@@FINDINGS@@', '\n'.join('* %s: %s' % (x['property'], x['what']) for x in kf['findings']))
src = src.replace('@@FIXED@@', '\n'.join('* ' + x[len('fixed: property='):] for x in kf['fixed']))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(src)
