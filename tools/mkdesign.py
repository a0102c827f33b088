"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START = '<!-- table of planted bugs -->\n'
by = {}
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(p) as h:
        by.setdefault(json.load(h)['property'], []).append(os.path.basename(os.path.dirname(p)))
with open(os.path.join(HERE, 'DESIGN.md')) as h:
    text = h.read().split(START)[0]
rows = ['| check | planted bugs it catches |', '|---|---|']
rows += ['| %s | %s |' % (k, ' '.join(v)) for k, v in sorted(by.items())]
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as h:
    h.write(text + START + '\n'.join(rows) + '\n')
print(sum(map(len, by.values())))
