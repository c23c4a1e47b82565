#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of LLVM IR (exact linear relations, interval domain, trace partitioning)'
CHECKS = {}
NA = {}
exec(open(os.path.join(V, 'vp', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
assert sorted(ids) == sorted(list(CHECKS) + list(NA)), sorted(set(ids) ^ set(list(CHECKS) + list(NA)))
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine BUILD=../build', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 vp/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 vp/check.py ' + i, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
