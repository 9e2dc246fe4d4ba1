#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(H, 'tools', 'level_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'pbt/checks', i.lower() + '.py')) and i in NOTES:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='./check.sh %s --thorough' % i, technique=tech,
                           level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd="python3-vt -c 'import hypothesis, sys; print(hypothesis.__version__, sys.version)'",
         checks=checks, not_applicable=na,
         notes='Property-based testing with Hypothesis against an independent reference model (pbt/ref.py); nothing '
               'is built: checks import ebmlite from /repo. No hooks in /repo. thorough_cmd: '
               '10-40 times more cases.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
