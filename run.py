#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--only CONFIG] [-v]
   run.py --replay FILE

Decides one property of /repo's current working tree (see DESIGN.md).
Exit 0: held on everything explored. Exit 1 with a VIOLATION line otherwise.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_env = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8'}
PY = '/opt/venv/bin/python'
if any(os.environ.get(k) != v for k, v in _env.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY) \
        or sys.prefix != '/opt/venv':
    if os.environ.get('SYMX_REEXEC') != '1':
        os.environ.update(_env)
        os.environ['SYMX_REEXEC'] = '1'
        if os.path.isdir('/opt/mplconfig'):
            os.environ.setdefault('MPLCONFIGDIR', '/opt/mplconfig')
        os.execv(PY, [PY] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse
import importlib
import json
import subprocess
import time

sys.setrecursionlimit(20000)


def load(pid):
    names = [f[:-3] for f in os.listdir(os.path.join(HERE, 'checks')) if f.lower().startswith(pid.lower() + '_')]
    if len(names) != 1:
        sys.exit('no check for %s' % pid)
    return importlib.import_module('checks.' + names[0])


def replay(path, quiet=False):
    from symx import harness, runner
    with open(path) as fp:
        r = json.load(fp)
    mod = load(r['property'])
    cfg = [c for t in ('quick', 'thorough') for c in mod.configs(t) if c.name == r['config']][0]
    harness.setup_concrete()
    cfg.earlier_values = runner.unjson(r.get('earlier') or {})
    res = runner.real_run(cfg, runner.unjson(r['values']), runner.is_tight(r.get('how')))
    bad = not res.ok and not res.infeasible
    if not quiet:
        print('config', r['config'])
        print('inputs', json.dumps(r['values']))
        print('FAILS: %s' % runner.describe(res) if bad else 'holds')
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--seconds', type=float, default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    from symx import harness, runner
    mod = load(a.property)
    pid = mod.ID
    harness.setup_concrete()
    # warm the code cache (children are forked) and the real packages
    from symx import loader
    loader.precompile(harness.REPO)
    for n in getattr(mod, 'IMPORTS', ()):
        try:
            importlib.import_module(n)
        except Exception as err:
            print('note: %s does not import: %s' % (n, err))
    configs = mod.configs(a.tier)
    assert len(set(c.name for c in configs)) == len(configs)
    if a.only:
        configs = [c for c in configs if a.only in c.name]
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as fp:
            known = [k for k in json.load(fp)['findings'] if k['property'] == pid]
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    seconds = a.seconds or (getattr(mod, 'SECONDS', {}).get(a.tier) or (300 if a.tier == 'quick' else 3000))
    found = []

    def log(msg):
        if a.v:
            print(msg, flush=True)
    ex = runner.Explorer(configs, seconds, a.jobs, known, log)

    def on_violation(v):
        path = os.path.join(rdir, '%s_%d.json' % (pid, len(found)))
        v = dict(v, property=pid)
        # confirmed under a name of its own, which no other run writes to
        own = '%s.%d' % (path, os.getpid())
        with open(own, 'w') as fp:
            json.dump(v, fp, indent=1)
        p = subprocess.run([PY, os.path.abspath(__file__), '--replay', own], capture_output=True, text=True)
        if p.returncode == 1:
            os.replace(own, path)
        else:
            os.remove(own)
            ex.undecided.append({'config': v['config'], 'what': 'violation not confirmed in a fresh process: '
                                 + v['what'] + ' | ' + p.stdout[-300:] + p.stderr[-300:]})
            log('not confirmed: %s %s' % (v, p.stdout + p.stderr))
            return False
        found.append((v, path))
        return True
    ex.run(on_violation)
    wall = time.time() - t0
    s = ex.total
    paths = sum(v for k, v in s.items() if k.startswith('paths_') and k != 'paths_infeasible')
    vac = [c.name for c in configs if not ex.per[c.name].get('checked')]
    if vac and not found:
        ex.undecided.append({'config': ', '.join(vac), 'what': 'no obligation reached'})
    notes = []
    for k in known:
        if k in ex.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            notes.append(k['what'])
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': mod.LEVEL if hasattr(mod, 'LEVEL') else 'model_checking',
        'wall_s': round(wall, 2),
        'coverage': {
            'states': int(paths), 'transitions': int(s.get('forks', 0) + s.get('forced', 0)),
            'traces_validated_against_impl': int(s.get('witness', 0)),
            'samples': ex.samples,
            'explanation': 'states: feasible execution paths, each covering all real/integer input values that '
                           'follow it; transitions: branch decisions resolved by the solver; obligations are '
                           'decided by z3 over all inputs of a path',
            'functions_encoded': sorted(ex.entered),
            'bounds': mod.BOUNDS, 'outside': getattr(mod, 'OUTSIDE', ''),
            'configurations': dict((c.name, {
                'paths': int(sum(v for k, v in ex.per[c.name].items() if k.startswith('paths_'))),
                'obligations': int(ex.per[c.name].get('checked', 0)),
                'queries': int(ex.per[c.name].get('queries', 0)),
                'solver_s': round(ex.per[c.name].get('solver_s', 0), 2)}) for c in configs),
            'obligations': int(s.get('obligations', 0)),
            'obligations_trivial_after_evaluation': int(s.get('trivial', 0)),
            'obligations_by_rewriting': int(s.get('rewritten', 0)),
            'solver_queries': int(s.get('queries', 0)), 'solver_unknown': int(s.get('unknown', 0)),
            'solver_s': round(s.get('solver_s', 0), 2),
            'infeasible_paths': int(s.get('paths_infeasible', 0)),
            'unexplored_prefixes': ex.unexplored,
            'float_sensitive_witnesses': int(s.get('float_sensitive', 0)),
            'undecided': ex.undecided[:40], 'undecided_count': len(ex.undecided),
            'known_findings': notes,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
        'violations': [{'replay': p, 'config': v['config'], 'what': v['what'], 'how': v['how']} for v, p in found],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    if a.v:
        for c in configs:
            st = ex.per[c.name]
            print('%-40s %s' % (c.name, {k: (round(v, 1) if isinstance(v, float) else v) for k, v in st.items()}))
    print('%s tier=%s paths=%d obligations=%d queries=%d solver=%.1fs witnesses=%d undecided=%d wall=%.1fs' % (
        pid, a.tier, paths, s.get('obligations', 0), s.get('queries', 0), s.get('solver_s', 0),
        s.get('witness', 0), len(ex.undecided), wall))
    for v, p in found:
        print('  %s: %s' % (v['config'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    sys.exit(1 if found else 0)


COMMON_ASSUMPTIONS = [
    'floating point arithmetic is modelled as exact real arithmetic; rounding is outside the claim',
    'numpy, pandas, the file system and scipy.stats.linregress are modelled by look-alikes which are checked '
    'against the real libraries by replaying a witness of explored paths',
]

if __name__ == '__main__':
    main()
