"""rewrites MANIFEST.json from what vf/plans.py decides"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', HERE]
from vf import plans
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in plans.PLANS:
        pl = plans.PLANS[p]
        checks.append({
            'property': p,
            'quick_cmd': '/opt/venv/bin/python check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py ' + p,
            'technique': pl['technique'], 'level': pl['level'], 'level_note': pl['note']})
    else:
        na.append({'property': p, 'reason': 'the specification of this part is not built yet'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python dev/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specification in spec/, checked with TLC; conformance by judging recorded executions of /repo with TLC. No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
