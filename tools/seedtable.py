import json,glob,os
rows=["| bug | property | needs | caught by |","|---|---|---|---|"]
C=json.load(open('/verif/tools/caught.json'))
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'));i=os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {C.get(i,'?')} |")
p='/verif/DESIGN.md';s=open(p).read()
import re
t="<!--seeds-->\n"+"\n".join(rows)+"\n<!--/seeds-->"
s=s.replace("SEEDTABLE",t) if "SEEDTABLE" in s else re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda _:t,s,flags=re.S)
open(p,'w').write(s)
