#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json (claimed checks) and properties.jsonl."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=json.load(open(os.path.join(root,"tools","checks.json")))
claimed={c["property"] for c in checks["checks"]}
na=[]
for p in props:
    if p["id"] not in claimed:
        na.append({"property":p["id"],"reason":checks["not_applicable"].get(p["id"],"check not built yet")})
out=[]
for c in checks["checks"]:
    c=dict(c)
    c.setdefault("quick_cmd","bash check.sh "+c["property"]+" quick")
    c.setdefault("thorough_cmd","bash check.sh "+c["property"]+" thorough")
    out.append(c)
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none (checks instrument a scratch copy of /repo's sources; /repo carries no hooks)","enable":"check.sh copies /repo's current non-test sources to a scratch directory, rewrites them with tools in /verif/mc, and builds the harnesses against that copy","source_commits":[]},
 "checks":out,"not_applicable":na,"notes":checks.get("notes","")}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(out),"claimed",len(na),"not")
