"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NA = {}     # property: reason
OLD = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
NOTES = {c['property']: c['level_note'] for c in OLD['checks']}
P = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in P:
    i = p['id']
    if i not in NA:
        checks.append(dict(
            property=i, quick_cmd='%s check.py %s --tier quick' % (PY, i),
            thorough_cmd='%s check.py %s --tier thorough' % (PY, i),
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the Python source with SMT '
            'queries (z3) per assertion',
            level='other', level_note=NOTES.get(i, NOTES['L01'])))
OLD['checks'] = checks
OLD['not_applicable'] = [dict(property=k, reason=v) for k, v in NA.items()]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(OLD, f, indent=1)
    f.write('\n')
