#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS and os.path.exists(os.path.join(ROOT, 'rules', i.lower() + '.py')):
        t, note = CLAIMS[i]
        cmd = 'python3 check.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
