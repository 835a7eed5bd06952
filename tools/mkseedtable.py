#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
rows=["| planted bug | property | needs | effect | caught by |","|---|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],m['needs'],m['what_it_breaks'],m.get('caught_by',m['property'])))
s=open('/verif/DESIGN.md').read()
a,b='<!-- seeds -->\n','<!-- /seeds -->\n'
if a not in s: s=s.replace('SEEDS_HERE\n','## Planted bugs\n\n'+a+b)
i=s.index(a)+len(a); j=s.index(b)
open('/verif/DESIGN.md','w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
