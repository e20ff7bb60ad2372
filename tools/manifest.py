#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        missing.append({'property': pid, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': './check.py ' + pid,
        'thorough_cmd': './check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': NOTES[pid][0],
        'level': 'exploration',
        'level_note': NOTES[pid][1] + ' ' + NOTES['all'],
    })
out = {
    'version': 1,
    'setup_cmd': "/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "
                 "\"/repo\"); import properties, properties.extras, numpy, "
                 "vectormath, png, traitlets'",
    'hooks': {'guard': 'none', 'enable': 'No hooks are compiled into '
              '/repo: the monitors observe through public callbacks, '
              'subclasses and sys.monitoring.', 'source_commits': []},
    'checks': checks,
    'not_applicable': missing,
    'notes': 'See DESIGN.md. tools/manifest.py regenerates this file.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fid:
    json.dump(out, fid, indent=1)
    fid.write('\n')
