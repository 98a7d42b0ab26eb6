"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two markers)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property (check that catches it) | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append(f'| {os.path.basename(os.path.dirname(f))} | {d["property"]} | {d["needs"]} |')
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read()
body = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->'
t = t.replace('@@TABLE@@', body) if '@@TABLE@@' in t else re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: body, t, flags=re.S)
open(p, 'w').write(t)
