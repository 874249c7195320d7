#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the checks present and the texts below"""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'techniques.json')))
have = {os.path.basename(f).split('_')[0].upper() for f in glob.glob(os.path.join(here, 'checks', 'c*_*.py'))}
checks = []
for p in props:
    if p['id'] not in have:
        continue
    t = TECH[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f'bash run.sh {p["id"]}',
                       thorough_cmd=f'VERIF_TIER=thorough bash run.sh {p["id"]}',
                       evidence_file=f'evidence/{p["id"]}.json',
                       technique=t['technique'], level='exploration', level_note=t['note']))
na = [dict(property=p['id'], reason='no check built yet') for p in props if p['id'] not in have]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
