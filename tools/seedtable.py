#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json,glob,os
V='/verif'; NOTE={'s03-stale-base':'missed at first: all WASI programs had memories with a maximum, which never move; caught since programs with growing memories were added'}
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    n=NOTE.get(i) or m.get('note')
    c=m.get('caught_by',m['property'])
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {c}, quick{' ('+n+')' if n else ''} |")
p=V+'/DESIGN.md'; s=open(p).read()
if 'SEEDED_TABLE' in s: s=s.replace('SEEDED_TABLE','<!-- seeded -->\n<!-- /seeded -->')
a=s.index('<!-- seeded -->')+len('<!-- seeded -->\n'); b=s.index('<!-- /seeded -->')
open(p,'w').write(s[:a]+'\n'.join(rows)+'\n'+s[b:])
