#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build',
    'checks': [{
        'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p,
        'evidence_file': 'evidence/%s.json' % p, 'technique': CHECKS[p]['technique'], 'level': 'model_checking', 'level_note': CHECKS[p]['note'],
    } for p in props if p in CHECKS],
    'not_applicable': [{'property': p, 'reason': 'not yet built'} for p in props if p not in CHECKS],
    'notes': 'All checks share check.py; specifications are in spec/ (TLA+, TLC). No hooks: the checks use the public API only.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
