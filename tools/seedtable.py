"""Development helper: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(V + '/seeded')):
  m = json.load(open(f'{V}/seeded/{n}/meta.json'))
  rows.append((m['property'], f"| `{n}`: {m['what_it_breaks']} | {m['property']} |"))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(\| bug \| check \|\n\|---\|---\|\n)(?:\|.*\n|@@SEEDS@@\n)*', lambda m: m.group(1) + ''.join(r + '\n' for _, r in sorted(rows)), t)
open(V + '/DESIGN.md', 'w').write(t)
