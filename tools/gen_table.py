#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 6)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(V + '/tools/missed.json'))
rows = ['| change | caught by | needs | strengthened by |', '|--------|-----------|-------|-----------------|']
ds = sorted(os.listdir(V + '/seeded'))
for d in ds:
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} | {missed.get(d.split('-')[0], '')} |")
s = open(V + '/DESIGN.md').read()
i = s.index('## 6.')
j = s.index('## 7.')
t = s[i:j]
t = re.sub(r'\n\d+ changes', f'\n{len(ds)} changes', t)
k = t.index('| change |')
s = s[:i] + t[:k] + '\n'.join(rows) + '\n\n' + s[j:]
open(V + '/DESIGN.md', 'w').write(s)
