"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = {}
try: PROOF = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
except FileNotFoundError: pass
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = 'Bounded: the whole property is evaluated as a contract (independent reference) on seeded inputs of the real code; see DESIGN.md.'
checks = []
for i in ids:
    d = PROOF.get(i, {})
    checks.append(dict(property=i, quick_cmd=f'./check.py {i}', thorough_cmd=f'./check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                       technique=d.get('technique', 'contract checked at run time on the real code (bounded stand-in)'), level=d.get('level', 'exploration'), level_note=d.get('note', NOTE)))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='No hooks in /repo. Checks read /repo/pyowc and import it read-only.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
