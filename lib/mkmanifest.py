"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'lib', 'level_notes.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i in NOTES:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py ' + i, technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='The check is not built yet.'))
json.dump(dict(version=1, setup_cmd='python3 run.py --selftest', checks=checks, not_applicable=na,
               notes='Every check builds what it needs from /repo in a scratch directory. run.py <ID> --replay FILE re-runs one saved case.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
