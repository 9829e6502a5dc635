#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
REASONS = {
    # property id -> why it is not claimed (anything without a check module)
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(HERE, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=pid, reason=REASONS.get(pid, 'check not built yet')))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    cmd = f'/opt/venv/bin/python check.py {pid}'
    checks.append(dict(
        property=pid, quick_cmd=f'{cmd} --tier quick', thorough_cmd=f'{cmd} --tier thorough',
        evidence_file=f'evidence/{pid}.json', technique=consts['TECHNIQUE'], level='exploration',
        level_note=consts['LEVEL_NOTE']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='No hooks are needed: every check drives the public API and reads files.'), f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', len(na), 'not claimed')
