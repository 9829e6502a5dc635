#!/usr/bin/env python3
"""Writes known_findings.json: `findings` come from findings_src.json, `fixed` from the fix: commits of /repo."""
import json, os, re, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROPS = {  # subject prefix -> property
}
src = os.path.join(HERE, 'tools', 'findings_src.json')
data = json.load(open(src)) if os.path.exists(src) else {'findings': [], 'fixed_props': {}}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, _, subj = line.partition(' ')
    if not subj.startswith('fix:'):
        continue
    what = subj[4:].strip()
    props = data['fixed_props'].get(what)
    if not props:
        print('no property for:', what)
        continue
    for pr in props.split():
        fixed.append(f'fixed: property={pr} {h} {what}')
json.dump({'findings': data['findings'], 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed;', len(data['findings']), 'findings')
