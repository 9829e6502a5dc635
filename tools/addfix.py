#!/usr/bin/env python3
"""addfix.py 'P01 P02' 'subject without fix: ' -- map a fix commit to its properties (tools/findings_src.json)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'findings_src.json')
d = json.load(open(p))
for props, subj in zip(sys.argv[1::2], sys.argv[2::2]):
    d['fixed_props'][subj] = props
json.dump(d, open(p, 'w'), indent=1)
