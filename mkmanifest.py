#!/usr/bin/env python3
"""Write MANIFEST.json from specs.CHECKS (claims) and NOTAPP (reasons)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hapcheck import specs
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.CHECKS:
        cmd = 'python3 hapcheck/run.py %s' % i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd,
                       'technique': specs.TECHNIQUE.get(i, specs.TECH_VG), 'level': 'other',
                       'level_note': specs.NOTE.get(i, specs.NOTE_VG)})
    else:
        na.append({'property': i, 'reason': specs.NOTAPP.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q hapcheck', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks read the source of /repo only.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
