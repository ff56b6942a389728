#!/usr/bin/env python3
"""Development tool: rewrite the table of planted bugs in DESIGN.md."""
import json,os,re
R='/verif'
rows=['<!-- seeds -->','| planted bug | property | needs | caught by |','|---|---|---|---|']
caught=json.load(open(R+'/tools/caught.json'))
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {caught.get(s,m['property'])} |")
rows.append('<!-- /seeds -->')
p=R+'/DESIGN.md'; t=open(p).read()
new='\n'.join(rows)
t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m:new, t, flags=re.S) if '<!-- seeds -->' in t else t.replace('CAUGHT-TABLE',new)
open(p,'w').write(t)
