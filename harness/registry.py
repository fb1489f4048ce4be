"""Property registry: which harness instances decide which property."""
import importlib
import json
import os
import pkgutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}


def _load():
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(os.path.abspath(__file__))])):
        if m.startswith('p_'):
            mod = importlib.import_module('harness.' + m)
            for k, v in getattr(mod, 'PROPS', {}).items():
                v = dict(v)
                v['_mod'] = m
                PROPS[k] = v


def instances(pid, tier):
    P = PROPS[pid]
    out = []
    for row in P['instances']:
        fn, params = row[0], dict(row[1])
        t = row[2] if len(row) > 2 else 'quick'
        if t == 'thorough' and tier != 'thorough':
            continue
        if t == 'quickonly' and tier != 'quick':
            continue
        for k, v in P.get('params', {}).items():
            params.setdefault(k, v)
        if tier == 'thorough':
            params.setdefault('budget', 5000)
            params.setdefault('validate', 10)
            params.setdefault('max_paths', 400000)
            params['timeout_ms'] = max(params.get('timeout_ms', 0), 20000)
        spec = fn if ':' in fn else P['_mod'] + ':' + fn
        out.append((spec, params))
    return out


def known_findings(pid, scratch, env):
    """lines for defects recorded (not repaired) in known_findings.json"""
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return ['KNOWN-FINDING: property=%s %s' % (x['property'], x['what']) for x in d.get('findings', [])
            if x['property'] == pid]


_load()
