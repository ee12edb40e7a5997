"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
p = '/verif/DESIGN.md'; s = open(p).read()
d = '/verif/seeded'
rows = ['| bug | check that catches it | what it breaks |', '|---|---|---|']
for n in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{n}/meta.json'))
    b = m['what_it_breaks'].strip().replace('\n', ' ').replace('|', '/')
    rows.append(f"| {n} | {m['property']} | {b[:150]} |")
a = s.index('| bug | check that catches it'); b = a
lines = s[a:].split('\n')
k = next(i for i, l in enumerate(lines) if not l.startswith('|'))
s = s[:a] + '\n'.join(rows) + '\n' + '\n'.join(lines[k:])
open(p, 'w').write(s)
