#!/usr/bin/env python3
"""Development aid: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
mark = '<!-- bug table -->\n'
head = s.split(mark)[0]
rows = ['| bug | what it breaks | what it needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                            m.get('caught_by', m['property'])))
open(f, 'w').write(head + mark + '\n'.join(rows) + '\n')
