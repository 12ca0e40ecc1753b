"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plans.PLANS:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='python3 tools/check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=plans.PLANS[i].get('technique', plans.TECHNIQUE),
                           level='model_checking', level_note=plans.PLANS[i].get('note', plans.NOTE)))
    else:
        na.append(dict(property=i, reason=plans.REASONS.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: the public interfaces expose the abstract state. All checks honour VERIF_SEED and VERIF_TIER.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
