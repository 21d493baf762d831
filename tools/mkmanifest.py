"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import registry
registry.load()
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
if os.path.exists(os.path.join(here, 'tools', 'na.json')):
    NA = json.load(open(os.path.join(here, 'tools', 'na.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS and i not in NA:
        q = registry.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the current Python source with SMT (z3, cvc5 on unknowns); '
                         'counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'All values within the bounds: ' + q.bounds + '. Outside: larger shapes, floating-point '
                          'rounding in grid arithmetic, and the stub contracts in the evidence assumptions.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'run.py decides one property; see DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
