#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'manifest_table.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(here,
    'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if os.path.exists(os.path.join(here, 'sa', 'props', i.lower() + '.py')):
        technique, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
            thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
            evidence_file='evidence/%s.json' % i, technique=technique,
            level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i,
            'no check yet')))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q sa || true',
    checks=checks, not_applicable=na, notes=NOTES),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
