"""regenerates MANIFEST.json from the property list and the specs present"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
notes = json.load(open(os.path.join(H, 'level_notes.json'))) if os.path.exists(os.path.join(H, 'level_notes.json')) else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'spec', i.lower() + '.py')) and os.path.exists(os.path.join(H, 'rt', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3-vt pyvc/check.py {i} quick', thorough_cmd=f'python3-vt pyvc/check.py {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique='contract-based deductive verification: verification conditions generated from the real source, discharged by z3/cvc5; bounded run-time contracts replay failures',
                           level='proof', level_note=notes.get(i, 'Postconditions proved for all inputs over real arithmetic on the source of /repo; library calls by assumed contract; rounding error only covered by the bounded stand-in.')))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import numpy, astropy"', checks=checks, not_applicable=na,
               notes='No hooks in /repo; the fix commits are listed in known_findings.txt.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
