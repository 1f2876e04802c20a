"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|-----|-----------|-------|']
metas = {i: json.load(open(f'{root}/seeded/{i}/meta.json')) for i in os.listdir(f'{root}/seeded')}
for i in sorted(metas, key=lambda i: (metas[i]['property'], i)):
    rows.append(f"| {i} | {metas[i]['property']} | {metas[i]['needs']} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
a = s.index('| bug |')
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n')
