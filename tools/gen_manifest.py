#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i,
                       'technique': registry.TECH, 'level': 'exploration', 'level_note': registry.CHECKS[i].get('note', registry.NOTE)})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'No check registered yet: its simulated workload is still being built.')})
m = {'version': 1, 'setup_cmd': 'python3 build.py setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks compile /repo/src as it is and put the simulator under it at the pthread, libc and kernel call level', 'source_commits': []},
     'notes': 'See DESIGN.md. Replay a violation with: python3 replay.py FILE [--log].'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks,', len(na), 'not applicable')
