"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(p) as f:
        m = json.load(f)
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['what_it_breaks'], m['needs']))
t = '| caught by | change | breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: '<!-- seeded -->\n' + t + '<!-- /seeded -->', s, flags=re.S)
open(path, 'w').write(s)
