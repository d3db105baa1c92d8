#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
t = '<!-- seeds -->\n| id | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = open(V + '/DESIGN.md').read()
s = s.replace('@SEEDS@', t) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
