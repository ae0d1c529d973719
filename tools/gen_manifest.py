#!/usr/bin/env python3
'''MANIFEST.json from the checks that exist.'''
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')) and pid in NOTES['NOTES']:
        technique, note = NOTES['NOTES'][pid]
        checks.append(dict(
            property=pid, quick_cmd='/opt/venv/bin/python run.py %s' % pid,
            thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py %s' % pid,
            technique='property-based testing: ' + technique,
            level='exploration', level_note=note))
    else:
        na.append(dict(property=pid, reason=NOTES['NA'].get(pid, 'no check has been built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py', checks=checks,
         not_applicable=na,
         notes='No hooks in /repo: every check drives the public API and the command line of '
               '/repo/src directly. VERIF_REPO selects another tree, for experiments only.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
