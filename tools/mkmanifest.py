#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table of checks below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(os.path.join(V, 'checks', 'chk_%s.py' % i.lower())):
        tech, note = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet for this property')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
