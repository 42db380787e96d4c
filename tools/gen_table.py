#!/usr/bin/env python3
"""Put the table of planted bugs into DESIGN.md"""
import json, os, glob, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} |")
t='<!-- table -->\n| bug | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(rows)+'\n<!-- end -->'
p=V+'/DESIGN.md'; s=open(p).read()
s=s.replace('@TABLE@',t) if '@TABLE@' in s else re.sub(r'<!-- table -->.*?<!-- end -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
