#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json,os,re
H=os.path.dirname(os.path.abspath(__file__))
rows=[]
for i in sorted(os.listdir(H+'/seeded')):
    m=json.load(open(f'{H}/seeded/{i}/meta.json'))
    one=lambda s:' '.join(s.split()).replace('|','/')
    rows.append((m['property'],i,one(m['needs']),one(m['what_it_breaks'])))
rows.sort()
t='| seed | caught by | needs | breaks |\n|---|---|---|---|\n'+''.join(f'| {i} | {p} | {n} | {b} |\n' for p,i,n,b in rows)
s=open(H+'/DESIGN.md').read()
s=re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)',lambda k:k.group(1)+t+k.group(2),s,flags=re.S)
open(H+'/DESIGN.md','w').write(s)
