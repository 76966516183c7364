#!/usr/bin/env python3
"""writes MANIFEST.json from the list of checks below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis'))
TECH = json.load(open(os.path.join(V, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'analysis\'); import common; common.ensure_driver()"',
     'checks': [], 'not_applicable': []}
for i in ids:
    t = TECH[i]
    if 'na' in t:
        m['not_applicable'].append({'property': i, 'reason': t['na']})
    else:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t['technique'], 'level': 'other', 'level_note': t['note']})
m['notes'] = 'Static analysis only: /repo is type-checked by an exporting compiler and the MIR is analysed; no code of /repo is ever run by a check.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
