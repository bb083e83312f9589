#!/usr/bin/env python3-vt
"""debug: run one contract case in this process.  one.py NAME [case] [dumpafter]"""
import sys,os,glob,importlib,tempfile,time,faulthandler
RT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,RT+"/vc"); sys.path.insert(0,RT+"/specs"); sys.path.insert(0,RT)
os.environ["VC_DEBUG"]="1"
import core,summ,ir,check
from core import *
for f in sorted(glob.glob(RT+"/specs/*.py")): 
    if '"%s'%sys.argv[1].split(".")[0] in open(f).read(): importlib.import_module(os.path.basename(f)[:-3])
c=next(c for l in CONTRACTS.values() for c in l if c.name==sys.argv[1])
ci=(sys.argv[2] if sys.argv[2][0]=='u' else int(sys.argv[2])) if len(sys.argv)>2 else 0
bd=tempfile.mkdtemp(); m=ir.parse(open(build_ir(c.tu,bd)).read())
faulthandler.dump_traceback_later(float(sys.argv[3]) if len(sys.argv)>3 else 20,repeat=True)
sums=[]
for n,f in m.funcs.items():
    for S in summ.SUMMARIES:
        if S.rx.search(f.dem): sums.append(S(n,f.dem))
t=time.time()
r=run_task(m,c,ci,sums,time.time()+c.deadline*3,None)
print("time",time.time()-t,"paths",r["paths"],r["error"],"feas",r.get("feas_queries"),r.get("feas_time"))
from collections import Counter
import itertools
for k,v in Counter((o["name"],o["status"],o["backend"]) for o in r["obls"]).items(): print(v,k)
for o in r["obls"]:
    if o["status"]!="proved":
        print(o["name"],o["goal"][:500],"\n   ","\n    ".join(o["pc"])); print(o["model"]); break
