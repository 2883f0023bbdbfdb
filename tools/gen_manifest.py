#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py, properties.jsonl and notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROPS = {}
exec(open(os.path.join(V, 'tools', 'props.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py --prop %s --tier quick' % i,
                   'thorough_cmd': 'python3 tools/check.py --prop %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': p.get('technique', 'runtime monitoring: seeded workloads against the real code, judged by an independent reference oracle; ASan/UBSan builds'),
                   'level': p.get('level', 'exploration'),
                   'level_note': p.get('note', 'bounded random exploration: held on every execution observed; ' + p['rule'])})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check under construction in this session; not claimed yet')} for i in ids if i not in PROPS],
     'notes': 'Every check rebuilds its harness from /repo with tools/vbuild.py into build/ (git-ignored). See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'not claimed')
