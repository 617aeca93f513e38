#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claims = json.load(open(os.path.join(here, 'tools', 'claims.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claims:
        tech, note = claims[i]
        checks.append({'property': i, 'quick_cmd': f'VERIF_TIER=quick bash run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the public API of the crate shows everything the properties speak about. Exit 2 = no verdict (does not build, inconclusive).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
