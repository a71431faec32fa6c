#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(f'{V}/checks.json'))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    c = cfg['checks'].get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': cfg.get('not_applicable', {}).get(p['id'], 'no check yet')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 check.py {p["id"]}',
        'thorough_cmd': f'python3 check.py {p["id"]} --thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run',
        'level': 'proof',
        'level_note': c['note'],
        'theorems': c.get('theorems', []),
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check extracts the code under contract from /repo\'s working tree, has Verus discharge all obligations, '
              'and replays the executable form of the contracts against the real code.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
