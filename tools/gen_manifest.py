"""Rewrites MANIFEST.json from the list of properties that have a check."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES and os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python check.py {i} --tier quick',
                       'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
                       'technique': n[0], 'level': 'model_checking', 'level_note': n[1],
                       'evidence_file': f'evidence/{i}.json'})
    else:
        na.append({'property': i, 'reason': NOTES.get('na', {}).get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC specifications in spec/, bound to the code by replaying their transitions or validating recorded runs (harness/). No hooks in /repo: the public API exposes the state.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
