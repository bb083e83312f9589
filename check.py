#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: verify the contracts of one property on /repo's current source."""
import sys, os, time, json, tempfile, shutil, importlib, signal, pickle, select, subprocess, glob, copy
ROOT=os.path.dirname(os.path.abspath(__file__))
EVID=os.environ.get("VC_EVID",os.path.join(ROOT,"evidence"))
sys.path.insert(0,os.path.join(ROOT,"vc")); sys.path.insert(0,os.path.join(ROOT,"specs"))
sys.dont_write_bytecode=True
import core, summ, ir, engine, alg
from core import *
NJ=int(os.environ.get("VC_JOBS","8"))

def pool(tasks,nj):
    """tasks: list of (key, function, seconds). forked, hard time limit. returns dict"""
    res={}; run={}; todo=list(tasks)[::-1]
    while todo or run:
        while todo and len(run)<nj:
            key,f,secs=todo.pop()
            r,w=os.pipe(); pid=os.fork()
            if pid==0:
                os.close(r); os.setpgid(0,0)
                try:
                    try: d=pickle.dumps(f())
                    except BaseException as e:
                        if os.environ.get("VC_DEBUG"): import traceback; traceback.print_exc()
                        d=pickle.dumps({"error":"%s: %s"%(type(e).__name__,e)})
                    with os.fdopen(w,"wb") as h: h.write(d)
                finally: os._exit(0)
            os.close(w); os.set_blocking(r,False)
            run[r]=[key,pid,time.time()+secs,b""]
        if not run: break
        rd,_,_=select.select(list(run),[],[],0.2)
        now=time.time()
        for r in list(run):
            e=run[r]; done=False
            if r in rd:
                try:
                    d=os.read(r,1<<20)
                    if d: e[3]+=d
                    else: done=True
                except BlockingIOError: pass
            if not done and now>e[2]: done="timeout"
            if done:
                try: os.killpg(e[1],signal.SIGKILL)
                except OSError: pass
                try: os.waitpid(e[1],0)
                except OSError: pass
                os.close(r); del run[r]
                try: res[e[0]]=pickle.loads(e[3])
                except Exception: res[e[0]]={"error":"time limit" if done=="timeout" else "worker ended without a result"}
    return res

def main():
    t0=time.time()
    pid=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick"); only=None; verbose="-v" in sys.argv
    if "--tier" in sys.argv: tier=sys.argv[sys.argv.index("--tier")+1]
    if "--only" in sys.argv: only=sys.argv[sys.argv.index("--only")+1]
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    for f in sorted(glob.glob(os.path.join(ROOT,"specs","*.py"))): 
        m=os.path.basename(f)[:-3]
        if ('"%s.'%pid) in open(f).read(): importlib.import_module(m)
    cs=[c for c in CONTRACTS.get(pid,[]) if (tier=="thorough" or c.tier=="quick") and (not only or only in c.name)]
    if not cs: print("no contract for",pid); return 2
    mult=1 if tier=="quick" else 5
    bd=tempfile.mkdtemp(prefix="vc_%s_"%pid)
    try: return check(pid,tier,seed,cs,mult,bd,t0,verbose,only)
    finally: shutil.rmtree(bd,ignore_errors=True)

def check(pid,tier,seed,cs,mult,bd,t0,verbose,only):
    mods={}; sos={}
    tus=sorted({c.tu for c in cs})
    nat={tu:start_native(tu,bd) for tu in tus}
    irs=pool([(tu,(lambda tu=tu:build_ir(tu,bd)),120) for tu in tus],NJ)
    for tu in tus:
        if not isinstance(irs[tu],str):
            print("cannot compile the wrapper unit %s against the current source: %s"%(tu,str(irs[tu])[:1500])); return 2
        mods[tu]=ir.parse(open(irs[tu]).read())
    t_build=time.time()-t0
    # contracts of internal functions: verify, then use
    st_tasks=[]
    for tu,m in mods.items():
        if "NOSUMMARY" in open(os.path.join(ROOT,"w",tu+".cpp")).readline(): continue      # objects laid out in another way there
        use=reachable(m,[x for c in cs if c.tu==tu for x in ("@"+c.fn,"@"+c.fn+"_v")])
        for n,f in m.funcs.items():
            if n not in use: continue
            for S in summ.SUMMARIES:
                if S.rx.search(f.dem): st_tasks.append(((tu,n,S.__name__),(lambda tu=tu,n=n,S=S:verify_summary(S,mods[tu],n)),60))
    summaries={tu:[] for tu in tus}; sres=pool(st_tasks,NJ); sum_ev=[]
    slow=[t for t in st_tasks if sres[t[0]].get("error") or any(o["status"]=="unknown" for o in sres[t[0]]["obls"])]
    if slow: sres.update(pool([((tu,n,sn),(lambda tu=tu,n=n,sn=sn:verify_summary(getattr(summ,sn),mods[tu],n,30)),150) for (tu,n,sn),_,_ in slow],NJ))
    for (tu,n,sn),r in sorted(sres.items()):
        S=getattr(summ,sn); ok=not r.get("error") and all(o["status"]=="proved" for o in r["obls"])
        if ok: summaries[tu].append(S(n,mods[tu].funcs[n].dem))
        sum_ev.append(dict(unit=tu,function=mods[tu].funcs[n].dem,contract=S.name,verified=ok,obligations=len(r.get("obls",[])),error=r.get("error")))
    # native objects
    def so_of(tu):
        so,p=nat[tu]
        if p is not None:
            err=p.communicate()[1]
            nat[tu]=(so,None)
            if p.returncode: raise BuildError(err[:2000])
        return so
    tasks=[]
    byname={c.name:c for c in cs}
    unb_failed={}       # contracts not proved for every length
    for c in cs:
        for ci in (["u%d"%k for k in range(len(c.ucases))]+[k for k,d in enumerate(c.cases) if d.get("n") in c.exact] or range(len(c.cases))):
            dl=c.deadline*mult
            tasks.append(((c.name,ci),(lambda c=c,ci=ci,dl=dl: run_task(mods[c.tu],c,ci,summaries[c.tu],time.time()+dl,None)),dl+15*mult))
    tasks.sort(key=lambda t:-t[2])
    res=pool(tasks,NJ)
    for tu in tus: so_of(tu)
    # contracts over containers of any length: where that is out of reach of the engine, the lengths listed, one by one (bounded)
    tasks=[]
    for c in cs:
        if not c.ucases: continue
        us={k:res[(c.name,k)] for k in ("u%d"%x for x in range(len(c.ucases)))}
        if all(not r.get("error") and all(o["status"]=="proved" for o in r["obls"]) for r in us.values()): continue
        unb_failed[c.name]="; ".join(sorted({r["error"] for r in us.values() if r.get("error")}))
        for ci in range(len(c.cases)):
            if (c.name,ci) in res: continue
            dl=c.deadline*mult
            tasks.append(((c.name,ci),(lambda c=c,ci=ci,dl=dl: run_task(mods[c.tu],c,ci,summaries[c.tu],time.time()+dl,None)),dl+15*mult))
    if tasks: res.update(pool(tasks,NJ))
    def caseof(c,ci): return c.cases[ci] if isinstance(ci,int) else c.ucases[int(ci[1:])]
    def uncountable(c,ci,r):
        """out of reach for any length: the bounded cases stand in"""
        return isinstance(ci,str) and r.get("error")
    # triage
    def failing():
        need=[]
        for (cn,ci),r in sorted(res.items(),key=str):
            bad=[o for o in r.get("obls",[]) if o["status"]!="proved"]
            if uncountable(byname[cn],ci,r): continue
            if r.get("error") or bad: need.append((cn,ci,r,bad))
        return need
    secs=(12 if tier=="quick" else 60)
    groups={}
    def regroup():
        groups.clear()
        for cn,ci,r,bad in failing(): groups.setdefault(cn,[]).append((ci,r,bad))
    regroup()
    def models_of(cn):
        ms=[]
        for ci,r,bad in groups.get(cn,[]):
            for o in bad:
                if o.get("model") and isinstance(ci,int):
                    m=dict(caseof(byname[cn],ci)); m.update({k:v for k,v in o["model"].items()}); ms.append(m)
        return ms[:20]
    stasks=[(cn,(lambda cn=cn: native_search(byname[cn],nat[byname[cn].tu][0],secs,seed,models=models_of(cn),exact=lambda v,cn=cn: exact_check(mods[byname[cn].tu],byname[cn],v,summaries[byname[cn].tu]))),secs+45) for cn in groups]
    found=pool(stasks,NJ) if stasks else {}
    # a solver or path limit is not an answer: once more with larger limits, when no input was found to fail
    again=[]; retried=0
    left=(620 if tier=="quick" else 3000)-(time.time()-t0)
    for cn in list(groups):
        c=byname[cn]
        if (found.get(cn) or {}).get("found") or not c.strict: continue
        for ci,r,bad in groups[cn]:
            if r.get("error") and "limit" not in r["error"].lower() and "ended" not in r["error"]: continue
            if bad and all(o["status"]=="refuted" for o in bad) and not r.get("error"): continue
            dl=min(c.deadline*mult*4,left)
            if dl<20: continue
            cc=copy.copy(c); cc.hard=c.hard*4; cc.quick_ms=c.quick_ms*2
            again.append(((cn,ci),(lambda c=cc,ci=ci,dl=dl: run_task(mods[c.tu],c,ci,summaries[c.tu],time.time()+dl,None)),dl+15))
    if again:
        if os.environ.get("VC_NORETRY"): again=[]
        retried=len(again)
        r2=pool(again[:4*NJ],NJ)
        for k,r in r2.items():
            if not r.get("error"): res[k]=r
        regroup()
    viol=[]; undis=[]; bounded=[]
    for cn,l in groups.items():
        c=byname[cn]; f=found.get(cn) or {}
        if f.get("error"): f={"found":False,"error":f["error"]}
        refuted=[(ci,o) for ci,r,bad in l for o in bad if o["status"]=="refuted"]
        unknown=[(ci,o) for ci,r,bad in l for o in bad if o["status"]!="refuted"]
        errs=[(ci,r["error"]) for ci,r,bad in l if r.get("error")]
        if f.get("found"):
            viol.append(dict(contract=cn,label=f["label"],kind="replayed",values=f["vals"],input=f["inp"],ret=f["ret"],out=f["out"],failed=[o["name"] for _,o in refuted+unknown],errors=errs))
        elif c.strict and (refuted or unknown or errs):
            o=(refuted or unknown or [(0,{"name":"(contract not decided: %s)"%(errs[0][1] if errs else "")})])[0][1]
            viol.append(dict(contract=cn,label=o["name"],kind="unreplayed",obligation=o,errors=errs,search=f))
        if not c.strict:
            bounded.append(dict(contract=cn,undischarged=[o["name"] for _,o in refuted+unknown],errors=errs,native_search=f))
    # known findings
    known=[]
    kf=os.path.join(ROOT,"known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"]!=pid: continue
            c=next((x for x in CONTRACTS[pid] if x.name==k["contract"]),None)
            if c is None or c.tu not in nat: continue
            r=in_child(lambda: Native(nat[c.tu][0]).run(k["fn"],k["input"],16),20)
            if r is None or still_fails(k,r): known.append(k); print("KNOWN-FINDING: property=%s %s"%(pid,k["what"]))
    # evidence
    obl=sum(len(r.get("obls",[])) for r in res.values()); dis=sum(1 for r in res.values() for o in r.get("obls",[]) if o["status"]=="proved")
    errn=sum(1 for (cn,ci),r in res.items() if r.get("error") and not uncountable(byname[cn],ci,r))
    back={}
    for r in res.values():
        for o in r.get("obls",[]):
            if o["status"]=="proved": back[o["backend"]]=back.get(o["backend"],0)+1
    fns=sorted({f for r in res.values() for f in r.get("functions",[])})
    smo=sum(x["obligations"] for x in sum_ev)
    labels={}
    for (cn,ci),r in res.items():
        for o in r.get("obls",[]):
            d=labels.setdefault(cn,{}).setdefault(o["name"],[0,0]); d[0]+=1; d[1]+=o["status"]=="proved"
    assumptions=["machine arithmetic of float/double is treated as exact real arithmetic; decimal constants by their shortest decimal value, multiples of M_PI as multiples of pi",
      "hypot, sqrt, sin, cos, tan, acos, asin, atan, atan2 are the mathematical functions (axiomatised); thresholds (thr::null*) have their default values",
      "clang++-18 -O0 followed by sroa/early-cse/instcombine/simplifycfg preserves the meaning of the source; the text IR is interpreted by vc/engine.py",
      "destructors and stream/string/exception-message code have no effect on the values observed (treated as opaque)",
      "solver verdicts (z3, cvc5) and the polynomial arithmetic of sympy are trusted"]
    lib=sorted({f for r in res.values() for f in r.get("modelled",[])})
    if lib: assumptions.append("contracts assumed on the standard library: "+"; ".join(lib)[:1500])
    ext=sorted({f for r in res.values() for f in r.get("extern",[])})
    ev=dict(property=pid,tier=tier,seed=seed,level="proof" if not bounded and not viol else "other",wall_s=round(time.time()-t0,1),violations=len(viol),
      assumptions=assumptions,
      coverage=dict(obligations=obl+errn+smo,discharged=dis+sum(x["obligations"] for x in sum_ev if x["verified"]),checker_cmd="python3-vt check.py %s --tier %s"%(pid,tier),
        trusted_base=["clang 18 front end","vc/engine.py (VC generator)","vc/alg.py+sympy polynomial gcd","z3","cvc5"]+["external: "+x for x in ext],
        contracts=[dict(name=c.name,entry=c.fn,cases=sum(1 for x in res if x[0]==c.name),any_length=bool(c.ucases) and c.name not in unb_failed,paths=sum(r.get("paths",0) or 0 for x,r in res.items() if x[0]==c.name),obligations={k:"%d/%d"%(v[1],v[0]) for k,v in labels.get(c.name,{}).items()},seconds=round(sum(r.get("time",0) or 0 for x,r in res.items() if x[0]==c.name),1),bounded=c.bounded,doc=c.doc) for c in cs],
        functions_under_contract=fns,functions_verified=len(fns),internal_contracts=sum_ev,backends=back,
        solver_seconds=round(sum(o["time"] for r in res.values() for o in r.get("obls",[]))+sum(r.get("feas_time",0) or 0 for r in res.values()),1),
        bounded=[dict(contract=c.name,bound=c.bounded) for c in cs if c.bounded]+[dict(contract=n,bound="sizes %s (any length: %s)"%(sorted({d["n"] for d in byname[n].cases}),e[:300])) for n,e in unb_failed.items()]+[dict(contract=c.name,bound="containers of %s points"%sorted({d["n"] for d in c.cases})) for c in cs if c.seq and not c.ucases]+[dict(contract=b["contract"],bound="undischarged obligations; directed native search of %s inputs found no failure"%b["native_search"].get("in_pre"),undischarged=b["undischarged"][:20],errors=b["errors"][:3]) for b in bounded],
        build_seconds=round(t_build,1),cases_retried=retried),
      known_findings=[k["id"] for k in known])
    ev["level"]="other" if all(c.bounded or c.seq and not c.ucases for c in cs) else "proof"    # other: every contract bounded
    if not only:
        os.makedirs(EVID,exist_ok=True)
        json.dump(ev,open(os.path.join(EVID,pid+".json"),"w"),indent=1)
    if verbose:
        for (cn,ci),r in sorted(res.items(),key=str):
            print("%-28s case %s paths %s obls %d/%d time %.1f feas %s %s"%(cn,caseof(byname[cn],ci),r.get("paths"),sum(o["status"]=="proved" for o in r.get("obls",[])),len(r.get("obls",[])),r.get("time") or 0,r.get("feas_queries"),r.get("error") or ""))
            seen=set()
            for o in r.get("obls",[]):
                if o["status"]!="proved" and o["name"] not in seen:
                    seen.add(o["name"])
                    print("      NOT PROVED [%s] %s (%.1fs) goal %s"%(o["status"],o["name"],o["time"],o.get("goal","")[:300]))
                    if o.get("model"): print("           model",{k:v for k,v in o["model"].items()})
                    if os.environ.get("VC_PC"): print("           pc","\n              ".join(o["pc"]))
        for s in sum_ev: print("internal contract",s)
    print("property %s: %d contracts, %d obligations, %d discharged, %d functions, %.1fs"%(pid,len(cs),ev["coverage"]["obligations"],ev["coverage"]["discharged"],len(fns),time.time()-t0))
    rc=0
    rd=os.path.join(EVID,"replay"); 
    for k,v in enumerate(viol):
        os.makedirs(rd,exist_ok=True)
        rp=os.path.join(rd,"%s_%d.json"%(pid,k)); json.dump(v,open(rp,"w"),indent=1,default=str)
        if verbose: print(json.dumps(v,default=str)[:1500])
        print("VIOLATION property=%s replay=%s%s"%(pid,rp,"" if v["kind"]=="replayed" else " no-failing-input-found")); rc=1
    return rc
def still_fails(k,r):
    ret,o=r
    if "ret" in k and ret!=k["ret"]: return False
    for j,x in (k.get("out") or {}).items():
        y=o[int(j)]
        if x is None: continue
        if not (abs(y-x)<=1e-6*max(1,abs(x)) or (x!=x and y!=y)): return False
    return True
def reachable(mod,names):
    """the functions that may be called from those named"""
    seen=set(); todo=[n for n in names if n in mod.funcs]
    while todo:
        n=todo.pop()
        if n in seen: continue
        seen.add(n)
        for x in ir.refs(mod.funcs[n]):
            while x in mod.aliases: x=mod.aliases[x]
            if x in mod.funcs and x not in seen: todo.append(x)
    return seen
def verify_summary(S,mod,n,hard=8):
    s=S(n,mod.funcs[n].dem); eng=s.verify(mod); out=[]
    for o in eng.obls:
        st=solve.Res("proved",o.backend,0) if o.status=="proved" else solve.prove(eng.z,o.pc,o.goal,hard_s=hard)
        out.append(dict(name=o.name,status=st.status,backend=st.backend))
    return dict(obls=out)
if __name__=="__main__": sys.exit(main())
