#!/usr/bin/env python3
# Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
import glob,json,os
top=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(top+"/seeded/*/meta.json")):
    m=json.load(open(f)); i=f.split("/")[-2]
    needs=" ".join(m["needs"].split()).replace("|","/")
    rows.append("| %s | %s | %s |"%(i,m["property"],needs))
p=top+"/DESIGN.md"; s=open(p).read()
mark="<!-- planted changes -->"
if mark not in s: s=s.replace("CATCHTABLE",mark)
s=s[:s.index(mark)+len(mark)]+"\n\nEach row: the change, the check whose quick run reports it, what the change needs in order to show.\n\n| change | caught by | needs |\n|---|---|---|\n"+"\n".join(rows)+"\n"
open(p,"w").write(s)
