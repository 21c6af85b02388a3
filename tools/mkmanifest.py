#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n and n.get('level'):
        checks.append({'property': i, 'quick_cmd': 'python3 vf.py check %s --tier quick' % i, 'thorough_cmd': 'python3 vf.py check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': n.get('technique', 'contracts on the real code, verification conditions from its LLVM IR discharged by SMT'), 'level': n['level'], 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': (n or {}).get('note', 'no check yet: contracts for these functions are not written')})
json.dump({'version': 1, 'setup_cmd': 'python3 vf.py setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
