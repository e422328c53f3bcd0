"""Writes tools/costs.json from the evidence files of a quick run."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for i in range(1, 100):
    p = f'{V}/evidence/C{i:02d}.json'
    if os.path.exists(p):
        d = json.load(open(p))
        if d['tier'] == 'quick':
            out[d['property']] = dict(wall_s=d['wall_s'], evaluations=d['coverage']['evaluations'],
                                      nontrivial=d['coverage']['distinct_nontrivial'])
json.dump(out, open(V + '/tools/costs.json', 'w'), indent=1)
