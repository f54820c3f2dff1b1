"""Writes /verif/MANIFEST.json from the checks in /verif/checks."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
NOTE = ('Every assertion is decided by z3 for all input values on every execution path of the current source within the '
        'bounds: %s. Outside: %s. Trusted: the symbolic look-alikes of numpy and the standard library (each run replays '
        'witnesses of its paths against the real code), exact real arithmetic for floats, z3.')
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))

checks = []
for f in sorted(os.listdir(os.path.join(ROOT, 'checks'))):
    if not f.startswith('c') or not f[1].isdigit():
        continue
    m = importlib.import_module('checks.' + f[:-3])
    checks.append({
        'property': m.ID,
        'quick_cmd': 'python3 run.py %s --tier quick' % m.ID,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % m.ID,
        'evidence_file': 'evidence/%s.json' % m.ID,
        'technique': 'symbolic execution of the current source, assertions decided by z3',
        'level': 'model_checking',
        'level_note': NOTE % (m.BOUNDS, getattr(m, 'OUTSIDE', 'larger inputs')),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': NA,
           'notes': 'See DESIGN.md. No hooks are needed in /repo.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
