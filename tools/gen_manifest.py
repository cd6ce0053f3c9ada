#!/usr/bin/env python3
"""MANIFEST.json from units.py (claimed) and the not_applicable table; every property of properties.jsonl must be in one of them."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in PROPS: continue
    c = PROPS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
        technique=c.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'), level='proof', level_note=c['note']))
na = [dict(property=p, reason=NOT_APPLICABLE[p]) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='Proofs: Verus over text extracted from /repo by extract/ (vx). The replay driver in harness/ gives concrete inputs and is the labelled bounded stand-in for glue outside the contracts.'),
    open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
