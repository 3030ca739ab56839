#!/usr/bin/env python3
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
from importlib.machinery import SourceFileLoader
claims=SourceFileLoader("claims",os.path.join(root,"tools","claims.py")).load_module()
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for i in ids:
    if i in claims.CLAIMS:
        c=claims.CLAIMS[i]
        m["checks"].append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --thorough",
          evidence_file=f"evidence/{i}.json",technique=c["technique"],level=c["level"],level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i,reason=claims.NA.get(i,"check not built yet")))
m["notes"]="All checks judge /repo's current source; see DESIGN.md."
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
