#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the table of claimed checks below.
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
claimed={}
na={}
cf=os.path.join(here,"claims.json")
if os.path.exists(cf):
    d=json.load(open(cf)); claimed=d["claimed"]; na=d["not_applicable"]
checks=[];nal=[]
for p in props:
    i=p["id"]
    if i in claimed:
        c=claimed[i]
        checks.append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,
          evidence_file="evidence/%s.json"%i,
          technique=c.get("technique","contract-based deductive verification: VC generation from the SSA of the real code against contracts, discharged by z3/cvc5"),
          level=c.get("level","proof"),level_note=c["note"]))
    else:
        nal.append(dict(property=i,reason=na.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=nal,
 notes="No hooks in /repo: contracts live in /verif/contracts and are bound to the real functions by name on every run.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
