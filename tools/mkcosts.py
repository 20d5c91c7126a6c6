"""Refresh tools/costs.json from the evidence of a quick run of all checks."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
res = {}
for f in sorted(glob.glob(os.path.join(here, '..', 'evidence', 'C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    res[d['property']] = [round(d['wall_s'], 1), c['evaluations'],
                          c['distinct_nontrivial']]
json.dump(res, open(os.path.join(here, 'costs.json'), 'w'), indent=0)
