"""Write DESIGN.md from properties.jsonl, the check modules, the seeded bugs and the prose below."""
import glob  # run with python3-vt
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
props = [json.loads(x) for x in open('properties.jsonl')]
prose = json.load(open('tools/design_src.json'))
known = json.load(open('known_findings.json'))
seeded = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    d['id'] = f.split('/')[1]
    seeded.setdefault(d['property'], []).append(d)
extra = {}
if os.path.exists('tools/also_caught.json'):
    extra = json.load(open('tools/also_caught.json'))

out = [open('tools/design_head.md').read().rstrip(), '', '## The properties one by one', '']
for p in props:
    m = importlib.import_module('checks.' + p['id'].lower())
    out += [f'### {p["id"]} — {p["title"]}', '',
            f'*Decided by*: {m.TECHNIQUE}.', '',
            f'*Generated*: {m.LEVEL_NOTE}', '',
            f'*Oracle*: {prose["oracle"][p["id"]]}', '',
            f'*Non-trivial*: {m.RULE}.', '']
    subs = ', '.join(f'`{s.name}` {s.quick} / {s.thorough}' if not getattr(s, 'exhaustive', False) else f'`{s.name}` (all)' for s in m.SUBS)
    out += [f'*Cases (quick / thorough)*: {subs}.', '', f'*Why the tests cannot settle it*: {p["why_tests_cant"]}.', '']
    ass = list(getattr(m, 'ASSUMPTIONS', [])) + prose['excluded'].get(p['id'], [])
    if ass:
        out += ['*Assumed or left out*: ' + '; '.join(ass) + '.', '']
    fixed = []
    for x in known['fixed']:
        _, pr, sha, *rest = x.split(' ')
        if pr == 'property=' + p['id']:
            fixed.append(f'{" ".join(rest)} ({sha})')
    if fixed:
        out += ['*Defects found and repaired*: ' + '; '.join(fixed) + '.', '']
    fs = [x for x in known['findings'] if x['property'] == p['id']]
    if fs:
        out += ['*Known findings*: ' + '; '.join(x['what'] for x in fs) + '.', '']
    if p['id'] in seeded:
        out += ['*Planted bugs*: ' + ', '.join('`' + d['id'] + '`' for d in seeded[p['id']]) + '.', '']
out += [open('tools/design_tail.md').read().rstrip(), '', '## Planted bugs and what catches them', '',
        'Every change below was confirmed in a scratch clone: the patch touches original lines only, the 146 stable tests still pass, '
        'the demonstration exits 0 without and 1 with it, and the check of the property named here exits 1 with a VIOLATION line '
        '(quick tier).', '', '| bug | property (check that catches it) | needs | breaks |', '|---|---|---|---|']
for pid in sorted(seeded):
    for d in seeded[pid]:
        out.append(f'| {d["id"]} | {pid}{extra.get(d["id"], "")} | {d["needs"]} | {d["what_it_breaks"]} |')
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)), sum(map(len, seeded.values())))
