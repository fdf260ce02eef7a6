#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, checks/ and notes.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
notes = json.load(open(os.path.join(H, 'notes.json')))
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile run_check.py && mkdir -p .cache .build evidence',
     'hooks': {'guard': 'none', 'enable': 'no hooks: every monitor observes the library through its public interface, compiled with sanitizers from /repo/include', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']; n = notes.get(i, {})
    d = os.path.join(H, 'checks', i)
    if os.path.isdir(d) and os.listdir(d) and 'technique' in n:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run_check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
            'technique': n['technique'], 'level': 'exploration', 'level_note': n['note'], 'evidence_file': 'evidence/%s.json' % i})
    else:
        m['not_applicable'].append({'property': i, 'reason': n.get('reason', 'no monitor built yet; the family applies (see DESIGN.md)')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not claimed')
