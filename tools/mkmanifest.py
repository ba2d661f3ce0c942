#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed properties."""
import json, os
NOTE={}
T="property-based testing: "
C=json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"checks.json")))
m={"version":1,"setup_cmd":"./run.sh build","checks":[],"not_applicable":[],
   "notes":"One harness crate (harness/) with its own choice-sequence generator, shrinker and replay files; no hooks in /repo. See DESIGN.md."}
for c in C:
    m["checks"].append({"property":c["id"],"quick_cmd":f"./run.sh {c['id']} quick","thorough_cmd":f"./run.sh {c['id']} thorough",
      "technique":T+c["technique"],"level":"exploration","level_note":c["note"]})
here=os.path.dirname(os.path.abspath(__file__))
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(here,"..","MANIFEST.json"),"a").write("\n")
print(len(m["checks"]))
