#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
caught=json.load(open(here+"/caught.json"))
rows=["| change | property | needs | caught by |","|---|---|---|---|"]
for i in sorted(os.listdir(root+"/seeded")):
    m=json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i,'?')} |")
p=root+"/DESIGN.md"; t=open(p).read()
mark="Each is in `seeded/<id>` with a demonstration."
i=t.index(mark); j=t.index("\n\n",i)+2
open(p,"w").write(t[:j]+"\n".join(rows)+"\n")
