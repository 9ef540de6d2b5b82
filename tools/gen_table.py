#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and
# tools/seed_results.json ({id: {property: "caught class"|"missed"}})
import json,os,glob
vd=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
p=vd+'/tools/seed_results.json'
if os.path.exists(p): res=json.load(open(p))
out=['| planted bug | property | needs | reported by |','|---|---|---|---|']
for m in sorted(glob.glob(vd+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    r='; '.join(f'{k}: {v}' for k,v in sorted(res.get(i,{}).items()))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {r} |".replace('\n',' '))
f=vd+'/DESIGN.md'; s=open(f).read()
h='## Planted bugs and which check reports them\n'
s=s[:s.index(h)+len(h)]+'\n'+'\n'.join(out)+'\n'
open(f,'w').write(s)
