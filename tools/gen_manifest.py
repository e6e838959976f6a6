#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per checks/cNN.py listed in properties.jsonl."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'manifest_notes.py')).read())
checks = []; na = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')) and pid not in NA:
        tech, note = NOTES.get(pid, (
            'property-based testing: generated cases against an independent '
            'reference, with shrinking', ''))
        c = {'property': pid,
             'quick_cmd': './run_check.sh %s --tier quick' % pid,
             'thorough_cmd': './run_check.sh %s --tier thorough' % pid,
             'technique': tech, 'level': 'exploration',
             'level_note': note or 'random search over the generated domain; '
             'no violation in the cases counted in the evidence file',
             'evidence_file': 'evidence/%s.json' % pid}
        checks.append(c)
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
