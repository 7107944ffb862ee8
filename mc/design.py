#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: the suites of every harness with their bounds."""
import os, re, sys, json
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import PROPS
MARK = '<!-- generated by mc/design.py: suites -->'
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl') if l.strip()}
out = [MARK, '', '## Suites and their bounds', '', 'Every suite enumerates all combinations of the choices its bound names (`thorough`: deeper or only there).', '']
for p in sorted(PROPS):
    out += [f'### {p} {titles[p]}', '']
    for s in PROPS[p]['src']:
        for name, tier, bound in re.findall(r'^SUITE\((\w+), (\d), "((?:[^"\\]|\\.)*)"\)', open(f'{HERE}/{s}').read(), re.M):
            out.append(f'- `{name}`{" (thorough only)" if tier == "1" else ""}: ' + bound.replace('\\"', '"').replace('\\\\', '\\'))
    out.append('')
d = open(V + '/DESIGN.md').read(); d = d.split(MARK)[0].rstrip() + '\n\n'
open(V + '/DESIGN.md', 'w').write(d + '\n'.join(out).rstrip() + '\n')
