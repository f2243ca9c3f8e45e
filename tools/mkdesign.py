"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->\n'
p = os.path.join(V, 'DESIGN.md')
head = open(p).read().split(MARK)[0]
rows = ['| bug | caught by | breaks | needs |\n', '|---|---|---|---|\n']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d.get('caught', d['property']),
                                            d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
open(p, 'w').write(head + MARK + ''.join(rows))
