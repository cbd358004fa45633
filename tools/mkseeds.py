"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property (check that catches it) | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s%s | %s |' % (d, m['property'], ' (not caught)' if m.get('missed') else '', m['needs'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
i = s.index('## Planted bugs')
intro = ('## Planted bugs\n\nEach was written from the statement of a property, passes the existing tests, has a demonstration, and was run '
         'against the check of its property (`tools/tryseed.py`). Candidates that break an existing test were discarded.\n\n')
open(p, 'w').write(s[:i] + intro + '\n'.join(rows) + '\n')
