"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = s.split('<!-- seeds -->')[0]
open(p, 'w').write(head + '<!-- seeds -->\n' + '\n'.join(rows) + '\n')
print(len(rows) - 2, 'planted')
