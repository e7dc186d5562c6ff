#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json, glob, os
d = open('/verif/DESIGN.md').read(); m = '<!-- planted -->'
d = d.split(m)[0].rstrip('\n')
rows = []
for x in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j = json.load(open(x)); rows.append((j['property'], os.path.basename(os.path.dirname(x)), j['what_it_breaks'], j['needs']))
rows.sort()
open('/verif/DESIGN.md', 'w').write(d + '\n\n' + m + '\n| property (the check that reports it) | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows))
