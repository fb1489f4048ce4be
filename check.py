#!/opt/venv/bin/python
"""Decide one property:  check.py ID [--tier quick|thorough] [--jobs N] [--only SUBSTR]
                         check.py --replay FILE
"""
import sys
import os
import json
import time
import shutil
import argparse
import tempfile
import subprocess
import concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=ROOT, OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', VERIF_SCRATCH=scratch,
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), XDG_CACHE_HOME=os.path.join(scratch, 'cache'),
             ASTROPY_CACHE_DIR=os.path.join(scratch, 'astropy'))
    for d in ('mpl', 'cache', 'astropy'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return e


def run_instance(i, spec, params, scratch, limit):
    out = os.path.join(scratch, 'r%d.json' % i)
    t = time.time()
    try:
        r = subprocess.run([PY, '-W', 'ignore', '-m', 'symx.instance', spec, json.dumps(params), out],
                           cwd=ROOT, env=env(scratch), capture_output=True, text=True, timeout=limit)
        err = r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return dict(spec=spec, params=params, error='timeout after %d s' % limit, wall=time.time() - t)
    if not os.path.isfile(out):
        return dict(spec=spec, params=params, error='crashed: ' + err, wall=time.time() - t)
    with open(out) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true', help='exit 2 when any instance is undecided')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='verif_')
    try:
        if a.replay:
            return replay(a.replay, scratch)
        return decide(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, scratch):
    with open(path) as f:
        d = json.load(f)
    os.environ.update(env(scratch))
    from symx import loader
    loader.install('conc')
    from symx import ctx
    out = ctx.conc_run(d['spec'], d['params'], d['values'])
    print(json.dumps(out, indent=1))
    return 1 if (out.get('failed') or (out.get('exc') and not out.get('na'))) else 0


def decide(a, scratch):
    from harness import registry
    t0 = time.time()
    P = registry.PROPS[a.prop]
    inst = registry.instances(a.prop, a.tier)
    if a.only:
        inst = [x for x in inst if a.only in x[0] or a.only in json.dumps(x[1])]
    limit = 840 if a.tier == 'quick' else 3 * 3600
    res = []
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = [ex.submit(run_instance, i, s, p, scratch, limit) for i, (s, p) in enumerate(inst)]
        for f in futs:
            res.append(f.result())
    viol = [r for r in res if r.get('violation')]
    bad = [r for r in res if r.get('error') or r.get('inconclusive')]
    bad = [r for r in bad if not r.get('violation')]
    rep = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    for k, r in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (a.prop, k))
        with open(p, 'w') as f:
            json.dump(dict(property=a.prop, spec=r['spec'], params=r['params'], values=r['violation']['values'],
                           label=r['violation']['label'], outcome=r['violation']['outcome']), f, indent=1)
        rep.append(p)
    ev = evidence(a, P, res, viol, bad, time.time() - t0)
    with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in res:
        st = r.get('stats', {})
        print('%-34s %-46s obl=%s/%s paths=%s queries=%s solver=%.1fs wall=%.1fs%s' % (
            r['spec'], json.dumps({k: v for k, v in r['params'].items() if k not in ('covers', 'budget')})[:46],
            r.get('discharged'), r.get('obligations'), st.get('paths'), st.get('queries'), st.get('solver_s', 0),
            r.get('wall', 0), '  ' + str(r.get('error') or r.get('inconclusive') or '')[:600] if (r.get('error') or r.get('inconclusive')) else ''))
        if a.v and r.get('limit'):
            print(r['limit'])
    for line in registry.known_findings(a.prop, scratch, env(scratch)):
        print(line)
    if viol:
        for r, p in zip(viol, rep):
            v = r['violation']
            print('counterexample (%s %s): %s -> %s' % (r['spec'], r['params'], v['label'],
                  json.dumps(v['outcome'])[:700]))
            print('  inputs: %s' % json.dumps(v['values'])[:900])
        print('VIOLATION property=%s replay=%s' % (a.prop, rep[0]))
        return 1
    if bad:
        # nothing is claimed for these instances: they are listed as inconclusive in the evidence
        print('INCONCLUSIVE property=%s (%d of %d instance(s) undecided)' % (a.prop, len(bad), len(res)))
        if a.strict or not any(r.get('discharged') for r in res):
            return 2
    print('OK property=%s obligations=%d instances=%d' % (a.prop, sum(r.get('obligations', 0) for r in res), len(res)))
    return 0


def evidence(a, P, res, viol, bad, wall):
    S = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    samples = [dict(harness=r['spec'], params=r['params'], path_model=r['sample']) for r in res if r.get('sample')][:6]
    return dict(
        property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P['level'],
        coverage=dict(
            states=S('paths'), transitions=S('forks'),
            traces_validated_against_impl=sum(r.get('validated', 0) for r in res),
            samples=samples,
            explanation='symbolic execution of the real source with z3: every feasible path of every harness '
                        'instance within the bounds; one query per assertion and path',
            functions_encoded=P['functions'], bounds=P['bounds'],
            outside_the_claim=P.get('outside', []),
            instances=len(res), obligations=sum(r.get('obligations', 0) for r in res),
            discharged=sum(r.get('discharged', 0) for r in res),
            discharged_within_tolerance=sum(r.get('within_tol', 0) for r in res),
            discharged_after_refinement=sum(r.get('refined', 0) for r in res),
            solver_queries=S('queries'), solver_s=round(S('solver_s'), 2),
            infeasible_paths_pruned=S('infeasible'),
            reachability_witnesses=sorted({'%s:%s' % (r['spec'], x) for r in res for x in r.get('covers', [])}),
            inconclusive=[dict(spec=r['spec'], params=r['params'], why=r.get('error') or r.get('inconclusive')) for r in bad],
            per_instance=[dict(spec=r['spec'], params=r['params'], obligations=r.get('obligations'),
                               paths=r.get('stats', {}).get('paths'), wall_s=round(r.get('wall', 0), 2)) for r in res],
        ),
        assumptions=P['assumptions'] + COMMON,
        wall_s=round(wall, 2), violations=len(viol))


COMMON = [
    'floating point numbers are treated as exact reals (constants as their decimal literals); replay uses the real float code with a tolerance',
    'exp/log/erf and similar are uninterpreted with range and monotonicity facts, refined at model points when a counterexample does not replay',
    'bounds are the array sizes and table sizes listed under bounds; nothing is claimed beyond them',
]

if __name__ == '__main__':
    sys.exit(main())
