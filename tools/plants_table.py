#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not part of any check)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {'b25': 'no bare containers in Perl wrappers', 'b33': 'the values were too few', 'b34': 'no far offsets', 'b36': 'header and body were never both damaged'}
extra = os.path.join(root, 'tools', 'missed.json')
if os.path.exists(extra):
    missed.update(json.load(open(extra)))
rows = ['| bug | property | needs | what it breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    f = lambda x: x.replace('|', '\\|').replace('\n', ' ')
    p = m['property']
    if i in missed:
        p += f' (at first missed: {missed[i]})'
    rows.append(f"| {i} | {p} | {f(m['needs'])} | {f(m['what_it_breaks'])} |")
s = open(root + '/DESIGN.md').read()
s = re.sub(r'<!-- plants -->.*<!-- /plants -->', lambda _: '<!-- plants -->\n' + '\n'.join(rows) + '\n<!-- /plants -->', s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
