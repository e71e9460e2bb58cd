#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(V + '/DESIGN.md').read()
head = '| planted change | caught by | needs |\n|---|---|---|\n'
i = s.index(head)
rest = s[i + len(head):].split('\n')
k = 0
while k < len(rest) and rest[k].startswith('|'):
    k += 1
open(V + '/DESIGN.md', 'w').write(s[:i] + head + '\n'.join(rows + rest[k:]))
