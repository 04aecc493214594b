#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS
TECH = 'contract-based deductive verification: contracts on the real functions (LLVM IR extracted from /repo on every run), inductive loop summaries, ring normaliser + z3'
NOTE = ('Every obligation is discharged for all inputs and sizes unless the evidence lists it as bounded; doubles are exact reals and integers mathematical; '
        'trusts clang, the verifier in vc/ and z3. ')
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(os.path.join(H, 'contracts', i + '.py')) and not p['na']:
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % i,
                           technique=TECH, level='proof', level_note=NOTE + (p['note'] or '')))
    else:
        na.append(dict(property=i, reason=p['na'] or 'contracts for this property are not written yet'))
json.dump(dict(version=1, setup_cmd='python3-vt /verif/tools/setup.py', checks=checks, not_applicable=na,
               notes='no hooks in /repo are needed: harness translation units in /verif/harness include the real headers'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
