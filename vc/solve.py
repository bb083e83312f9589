"""Discharge of one obligation: canonical algebra, z3 in process, then a portfolio of solver processes."""
import os, subprocess, tempfile, time, signal
import z3
import alg, logic
from alg import *
from logic import *

class Res:
    __slots__=("status","backend","time","model")
    def __init__(s,status,backend,t,model=None): s.status=status; s.backend=backend; s.time=t; s.model=model

def relevant(z,pc,bs):
    A=set()
    for b in bs: A|=set(z.closure([b])[1])
    A={a for a in A if ATOMS[a].kind!="const"}
    rest=[]
    for c in pc:
        ca={a for a in z.closure([c])[1] if ATOMS[a].kind!="const"}
        rest.append((c,ca))
    out=[]; ch=True
    while ch:
        ch=False; nr=[]
        for c,ca in rest:
            if ca & A or not ca:
                out.append(c)
                if not ca<=A: A|=ca
                ch=True
            else: nr.append((c,ca))
        rest=nr
    return out

def _model(m,z,seen):
    r={}
    for i in seen:
        A=ATOMS[i]
        if A.kind!="var": continue
        try:
            v=m.eval(z.zatom(i),model_completion=True)
            if z3.is_algebraic_value(v): v=v.approx(30)
            if z3.is_rational_value(v): r[A.name]=float(v.numerator_as_long())/float(v.denominator_as_long()) if v.denominator_as_long()!=0 else 0.0
            elif z3.is_int_value(v): r[A.name]=v.as_long()
            elif z3.is_bool(v): r[A.name]=z3.is_true(v)
        except Exception: pass
    return r

def check_inproc(z,cs,ms,nlsat=True,lin=False):
    ax,seen=z.closure([c for c in cs if c is not True])
    zs=[z.b(c) for c in cs]+ax
    pure=all(ATOMS[a].sort=="R" and ATOMS[a].kind!="uf" for a in seen)
    res=z3.unknown; so=None
    try:
        # products of atoms as opaque terms: linear reasoning only (sound for unsat)
        so=z3.SimpleSolver(); so.set("arith.nl",False); so.set("timeout",min(ms,500)); so.add(zs)
        if so.check()==z3.unsat: return "unsat",None
        if lin: return "unknown",None
        if pure and nlsat:
            so=z3.Then("simplify","solve-eqs","qfnra-nlsat").solver()
            so.set("timeout",ms); so.add(zs); res=so.check()
        if res==z3.unknown:
            so=z3.Solver(); so.set("timeout",ms); so.add(zs); res=so.check()
    except z3.Z3Exception: res=z3.unknown
    if res==z3.unsat: return "unsat",None
    if res==z3.sat:
        try: return "sat",_model(so.model(),z,seen)
        except Exception: return "sat",{}
    return "unknown",None

def portfolio(z,cs,secs):
    """hard-killed solver processes on the SMT-LIB text"""
    ax,seen=z.closure([c for c in cs if c is not True])
    so=z3.Solver(); so.add([z.b(c) for c in cs]+ax)
    body=so.to_smt2()
    ints=any(ATOMS[a].sort!="R" or ATOMS[a].kind=="uf" for a in seen)
    fd,fn=tempfile.mkstemp(suffix=".smt2"); os.write(fd,body.encode()); os.close(fd)
    procs=[]
    t=time.time()
    def start(name,cmd):
        try: procs.append((name,subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,start_new_session=True)))
        except OSError: pass
    start("z3-new",["z3-new","-T:%d"%max(1,int(secs)),"-memory:3000",fn])
    start("cvc5",["cvc5","--tlimit=%d"%int(secs*1000),"--nl-cov" if not ints else "--nl-ext-tplanes",fn])
    start("z3",["z3","-T:%d"%max(1,int(secs)),"-memory:3000",fn])
    got=("unknown",None)
    while procs and time.time()-t<secs+1:
        for p in list(procs):
            if p[1].poll() is not None:
                o=p[1].stdout.read().split("\n")[0].strip(); procs.remove(p)
                if o in("unsat","sat"): got=(o,p[0]); break
        if got[1]: break
        time.sleep(0.01)
    for _,p in procs:
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
        p.wait()
    os.unlink(fn)
    return got

def split_positions(z,pc,goal):
    """a goal about an arbitrary position j: the positions that occur, one by one, and a j different from all of them"""
    if isinstance(goal,bool): return None
    js=[a for a in bdeps(goal) if ATOMS[a].kind=="var" and ATOMS[a].sort=="I" and SKO.match(ATOMS[a].name)]
    if not js: return None
    ix={}
    def add(b):
        for a in bdeps(b):
            A=ATOMS[a]
            if A.kind=="sel": ix.setdefault(A.name,{})[A.args[0].key]=A.args[0]
    add(goal)
    for c in pc:
        if c is not False: add(c)
    for j in sorted(js):
        ts={}
        for d in ix.values():
            wj=[]; wo=[]
            for t in d.values():
                if t.d!=ONE: continue
                cf=t.n.get(((j,1),),0)
                o=deps_of(t)
                if cf in(1,-1): wj.append((t,cf))
                elif j not in o: wo.append(t)
            for t,cf in wj:
                for u in wo:
                    e=(u-t)*cf+R(Rat({((j,1),):1}))
                    if j in deps_of(e): continue
                    ts[e.key]=e
        if ts and len(ts)<=24: return j,list(ts.values())
    return None
SKO=__import__("re").compile(r"[a-z]+_\d+$")
def fixed(pc):
    """integer variables the path leaves one value for"""
    lo={}; hi={}; m={}
    for c in pc:
        if not isinstance(c,B) or c.op not in("le","lt","eq") or len(c.a)>2: continue
        v=[k for k in c.a if k]
        if len(v)!=1 or len(v[0])!=1 or v[0][0][1]!=1: continue
        a=v[0][0][0]; A=ATOMS[a]; cf=c.a[v[0]]; c0=c.a.get((),0)
        if A.kind!="var" or A.sort!="I" or type(cf) is not int or type(c0) is not int: continue
        if c.op=="eq":
            if c0%cf==0: lo[a]=max(lo.get(a,-c0//cf),-c0//cf); hi[a]=min(hi.get(a,-c0//cf),-c0//cf)
            continue
        if c.op=="lt": c0+=1            # cf*v+c0 <= 0
        if cf>0: b=(-c0)//cf; hi[a]=min(hi.get(a,b),b)
        else: b=(c0-cf-1)//(-cf); lo[a]=max(lo.get(a,b),b)
    return {a:lo[a] for a in lo if hi.get(a)==lo[a]}
def onints(c):
    """a condition on integer variables only"""
    if c is True or c is False: return True
    if c.op in("and","or"): return all(onints(x) for x in c.a)
    return c.op in("lt","le","eq","ne") and all(ATOMS[a].kind=="var" and ATOMS[a].sort=="I" for m in c.a for a,_ in m)
def choices(z,pc,goal,ms):
    """conditional values on integer conditions the path decides"""
    m={}; ip=None
    for a in sorted(bdeps(goal)):
        A=ATOMS[a]
        if A.kind!="ite" or not onints(A.args[0]): continue
        if ip is None: ip=[c for c in pc if c is not False and onints(c)]
        for c,v in((A.args[0],2),(NOT(A.args[0]),1)):
            if check_inproc(z,ip+[c],ms,lin=True)[0]=="unsat": m[a]=A.args[v]; break
    return m
def deepints(c):
    """a condition on integer variables and values chosen by such conditions only"""
    return c is True or c is False or all((ATOMS[a].kind=="var" and ATOMS[a].sort=="I") or ATOMS[a].kind=="ite" for a in bdeps(c))
NOINTS={}
def noints(z,pc,ms):
    """no integers satisfy the conditions of the path on integers"""
    ip=[c for c in pc if c is not False and deepints(c)]
    if not ip: return False
    k=frozenset(c.key() for c in ip if c is not True)
    if k not in NOINTS: NOINTS[k]=check_inproc(z,ip,ms,lin=True)[0]=="unsat"
    return NOINTS[k]
def prove(z,pc,goal,quick_ms=1500,hard_s=10,sign=None):
    """pc |= goal ?"""
    if noints(z,pc,quick_ms): return Res("proved","infeasible path",0)
    m=fixed(pc)
    if isinstance(goal,B):
        c=choices(z,pc,goal,quick_ms)
        if c: goal=substB(goal,c,None,{})
    if m:
        m={a:R(x) for a,x in m.items()}; cache={}
        pc=[substB(c,m,None,cache) if isinstance(c,B) else c for c in pc]
        if any(c is False for c in pc): return Res("proved","infeasible path",0)
        pc=[c for c in pc if c is not True]
        goal=substB(goal,m,None,cache) if isinstance(goal,B) else goal
    r=split_positions(z,pc,goal)
    if r is None: return prove1(z,pc,goal,quick_ms,hard_s,sign)
    t0=time.time()
    if check_inproc(z,list(pc)+[NOT(goal)],quick_ms,lin=True)[0]=="unsat": return Res("proved","z3",time.time()-t0)
    j,ts=r; J=Rat({((j,1),):1}); be=set()
    for e in ts:
        m={j:e}
        p=[]; bad=False
        for c in pc:
            c2=substB(c,m) if c is not False else False
            if c2 is False: bad=True; break
            if c2 is not True: p.append(c2)
        if bad: continue
        q=prove(z,p,substB(goal,m),quick_ms,hard_s)
        be.add(q.backend)
        if q.status!="proved":
            if q.model is not None: q.model=None
            return Res(q.status,q.backend,time.time()-t0,q.model)
    q=prove1(z,pc+[NE(J,e) for e in ts],goal,quick_ms,hard_s)
    if q.status=="proved": return Res("proved","+".join(sorted(be|{q.backend}))+" (by positions)",time.time()-t0)
    return Res(q.status,q.backend,time.time()-t0,q.model)
def prove1(z,pc,goal,quick_ms=1500,hard_s=10,sign=None):
    t=time.time()
    if goal is True: return Res("proved","canonical algebra",0)
    if False in [c for c in pc if isinstance(c,bool)]: return Res("proved","infeasible path",0)
    if goal is not False and goal.op=="and":
        tot=0; be=set(); 
        for g in goal.a:
            r=prove(z,pc,g,quick_ms,hard_s)
            tot+=r.time; be.add(r.backend)
            if r.status!="proved": return Res(r.status,r.backend,tot,r.model)
        return Res("proved","+".join(sorted(be)),tot)
    if goal is not False and goal.op=="or":      # guards and one conjunction: one conjunct at a time
        cj=[g for g in goal.a if g.op=="and"]; rest=[g for g in goal.a if g.op!="and"]
        if len(cj)==1 and all(g.op!="or" for g in rest):
            q=prove(z,pc,AND(*[OR(*rest,g) for g in cj[0].a]),quick_ms,hard_s) if len(cj[0].a)>1 else None
            if q is not None: return q
    keys={c.key() for c in pc}
    if goal is not False and goal.key() in keys: return Res("proved","path condition",time.time()-t)
    neg=NOT(goal)
    cs=[neg] if neg is not True else []
    rel=relevant(z,pc,cs) if cs else list(pc)
    st,m=check_inproc(z,rel+cs,quick_ms)
    if st=="unsat": return Res("proved","z3",time.time()-t)
    if st=="sat" and len(rel)==len(pc): return Res("refuted","z3",time.time()-t,m)
    if st=="sat":
        st2,m2=check_inproc(z,list(pc)+cs,quick_ms)
        if st2=="unsat": return Res("proved","z3",time.time()-t)
        if st2=="sat": return Res("refuted","z3",time.time()-t,m2)
        return Res("refuted","z3",time.time()-t,m)
    if hard_s:
        st,be=portfolio(z,rel+cs,hard_s)
        if st=="unsat": return Res("proved",be,time.time()-t)
        if st=="sat":
            st2,m=check_inproc(z,rel+cs,4*quick_ms)
            return Res("refuted",be,time.time()-t,m if st2=="sat" else None)
    return Res("unknown","z3+cvc5",time.time()-t)
