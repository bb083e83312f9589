"""Contracts on the entry points, their verification on the current source, replay on the real code."""
import sys, os, re, time, math, json, random, itertools, traceback, hashlib, subprocess, tempfile, shutil, signal, pickle, select, ctypes
sys.setrecursionlimit(20000)
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
import alg, logic, ir, engine, solve, seq
from alg import *
from logic import *
from engine import Engine, State, Frame, Outcome, Obl, Ptr, Unsupported, PathLimit, UNDEF

REPO=os.environ.get("VC_REPO","/repo")

# ------------------------------------------------------------------ specification arithmetic: symbolic and floating
SKOLEM=[0]
class SM:
    sym=True
    def __init__(s,sign=None,st=None): s.sg=sign; s.st=st
    def R(s,x): return R(x)
    # quantifiers over positions; for containers of any length: in goals, in positive positions only
    def forall(s,lo,hi,f,nm="j"):
        """for all positions j in [lo,hi): f(j)"""
        lo,hi=R(lo),R(hi)
        if lo.isconst() and hi.isconst(): return AND(*[f(k) for k in range(int(lo.const()),int(hi.const()))])
        SKOLEM[0]+=1; j=var("%s_%d"%(nm,SKOLEM[0]),"I")
        g=AND(LE(lo,j),LT(j,hi)); return OR(NOT(g),f(j))
    def exists(s,lo,hi,f,cands=()):
        lo,hi=R(lo),R(hi)
        if lo.isconst() and hi.isconst(): return OR(*[f(k) for k in range(int(lo.const()),int(hi.const()))])
        f0=f(lo)
        return OR(*[AND(LE(lo,j),LT(j,hi),f(j)) for j in dict((R(x).key,R(x)) for x in list(cands)+s.positions([f0])+[lo,hi-1]).values()])
    def positions(s,more=()):
        if s.st is None: return []
        r={}
        for b in s.st.pc+list(s.st.inst.values())+list(more):
            if isinstance(b,B):
                for a in bdeps(b):
                    A=ATOMS[a]
                    if A.kind=="sel": r[A.args[0].key]=A.args[0]
        return list(r.values())
    def sum(s,lo,hi,f):
        lo,hi=R(lo),R(hi)
        if lo.isconst() and hi.isconst():
            t=RZERO
            for k in range(int(lo.const()),int(hi.const())): t=t+f(k)
            return t
        return SUM(f(kappa()),lo,hi)
    def eq(s,a,b,tol=None): return EQ(a,b,s.sg)
    def ne(s,a,b): return NE(a,b,s.sg)
    def lt(s,a,b): return LT(a,b,s.sg)
    lts=lt      # natively: False if equal to the last bit (the exact evaluation then excludes mere rounding)
    def le(s,a,b): return LE(a,b,s.sg)
    def gt(s,a,b): return LT(b,a,s.sg)
    def ge(s,a,b): return LE(b,a,s.sg)
    def AND(s,*x): return AND(*x)
    def OR(s,*x): return OR(*x)
    def NOT(s,x): return NOT(x)
    def IMP(s,a,b): return IMP(a,b)
    def IFF(s,a,b): return IFF(a,b)
    def abs(s,x): return ABS(x,s.sg)
    def sqrt(s,x): return SQRT(x,s.sg)
    def hyp(s,x,y): x=R(x); y=R(y); return SQRT(x*x+y*y,s.sg)
    def sin(s,x): return SINCOS(R(x),s.sg)[0]
    def cos(s,x): return SINCOS(R(x),s.sg)[1]
    def ite(s,c,a,b): return ITE(c,R(a),R(b)) 
    def min(s,a,b): return ITE(LT(b,a,s.sg),R(b),R(a))
    def max(s,a,b): return ITE(LT(a,b,s.sg),R(b),R(a))
    def acos(s,x): return ACOS(x,s.sg)
    def asin(s,x): return ASIN(x,s.sg)
    def atan(s,x): return ATAN(x,s.sg)
    @property
    def pi(s): return pi()
    def q(s,n,d=1): return R(Fraction(n)/Fraction(d))
    def flag(s,v):
        if isinstance(v,(bool,B)): return v
        if isinstance(v,int): return v!=0
        return NE(v,0,s.sg)
def _nan(x): return isinstance(x,float) and (x!=x or x in(math.inf,-math.inf))
class FM:
    """three-valued: True / False (clearly) / None (too close to call in floating point)"""
    sym=False
    def R(s,x): return float(x)
    def forall(s,lo,hi,f,nm=None): return s.AND(*[f(k) for k in range(int(lo),int(hi))])
    def exists(s,lo,hi,f,cands=()): return s.OR(*[f(k) for k in range(int(lo),int(hi))])
    def sum(s,lo,hi,f): return math.fsum(f(k) for k in range(int(lo),int(hi)))
    def eq(s,a,b,tol=1e-6):
        a=float(a); b=float(b)
        if _nan(a) or _nan(b): return a==b
        d=abs(a-b); m=max(1.0 if tol is None or tol>=1e-9 else 0.0,abs(a),abs(b))
        tol=tol or 1e-6
        if d<=tol*m*0.1: return True
        return False if d>tol*m else None
    def ne(s,a,b):
        a=float(a); b=float(b)
        if a==b: return False
        return True if abs(a-b)>1e-9*max(abs(a),abs(b))+1e-13 else None
    def lt(s,a,b):
        a=float(a); b=float(b)
        if a!=a or b!=b: return False
        t=1e-12+1e-7*max(abs(a),abs(b)) if not (_nan(a) or _nan(b)) else 0
        if b-a>t: return True
        if a-b>t: return False
        return None
    def lts(s,a,b): return False if a==b else s.lt(a,b)
    def le(s,a,b): return s.lt(a,b)
    def gt(s,a,b): return s.lt(b,a)
    def ge(s,a,b): return s.lt(b,a)
    def AND(s,*x):
        if any(v is False for v in x): return False
        return None if any(v is None for v in x) else True
    def OR(s,*x):
        if any(v is True for v in x): return True
        return None if any(v is None for v in x) else False
    def NOT(s,x): return None if x is None else not x
    def IMP(s,a,b): return s.OR(s.NOT(a),b)
    def IFF(s,a,b):
        if a is None or b is None: return None
        return bool(a)==bool(b)
    def abs(s,x): return abs(x)
    def sqrt(s,x): return math.sqrt(x) if x>=0 else (0.0 if x>-1e-9 else math.nan)
    def hyp(s,x,y): return math.hypot(x,y)
    def sin(s,x): return math.sin(x)
    def cos(s,x): return math.cos(x)
    def ite(s,c,a,b):
        if c is None: raise Unsure()
        return a if c else b
    def min(s,a,b): return min(a,b)
    def max(s,a,b): return max(a,b)
    def acos(s,x): return math.acos(max(-1.,min(1.,x)))
    def asin(s,x): return math.asin(max(-1.,min(1.,x)))
    def atan(s,x): return math.atan(x)
    pi=math.pi
    def q(s,n,d=1): return float(Fraction(n)/Fraction(d))
    def flag(s,v): return bool(v)
class Unsure(Exception): pass
class NS:
    def __init__(s,d): s.__dict__.update(d)
    def __getitem__(s,k): return s.__dict__[k]
class Result:
    """what a call did: threw, or the returned flag and the values written"""
    def __init__(s,threw,ret,get): s.threw=threw; s.ret=ret; s._g=get
    def __getitem__(s,k):
        if isinstance(k,slice): return [s._g(j) for j in range(k.start or 0,k.stop)]
        return s._g(k)
    @property
    def ok(s): return s.ret

CONTRACTS={}      # property -> list
class Contract: pass
def contract(name,fn,free,inp=None,pre=None,tu=None,nout=16,strict=True,deadline=60,gen=None,cases=None,hard=8,opts=None,tier="quick",bounded=None,feas=250,maxpaths=3000,quick_ms=1500,funcs=None,rng=None):
    """declare the contract of wrapper `fn` (in unit w/<tu>.cpp). `free`: variables, with optional sign (r>0, w!=0, k:0,1,2)."""
    def deco(post):
        c=Contract(); c.name=name; c.prop=name.split(".")[0]; c.fn=fn; c.inp=inp; c.pre=pre; c.post=post; c.nout=nout
        c.tu=tu or post.__globals__.get("TU"); c.strict=strict; c.deadline=deadline; c.gen=gen; c.hard=hard; c.opts=opts or {}; c.tier=tier; c.bounded=bounded; c.feas=feas; c.maxpaths=maxpaths; c.quick_ms=quick_ms
        c.vars=[]; c.cases=[{}]; c.seq=None; c.unb=None; c.unb_min=0; c.exact=set(); c.idx=[]; c.rng=rng
        for t in free.split():
            m=re.match(r'(\w+)\[\]:(.*)$',t)
            if m:       # a container of points: its sizes
                ks=m.group(2).split(","); c.seq=m.group(1)
                for k in ks:
                    if k[0]=="*":       # any length (a multiple of the number given, from a least one on: *2>=4); =k: a length below, proved on its own
                        a,_,b=k[1:].partition(">="); c.unb=int(a or 1); c.unb_min=int(b or 0)
                c.cases=[dict(d,n=int(k.lstrip("="))) for d in c.cases for k in ks if k[0]!="*"]
                c.exact={int(k[1:]) for k in ks if k[0]=="="}; continue
            m=re.match(r'(\w+):<n$',t)
            if m:       # a position of the container
                c.cases=[dict(d,**{m.group(1):k}) for d in c.cases for k in range(d["n"])]; c.idx.append(m.group(1)); continue
            m=re.match(r'(\w+)(>=0|>0|!=0)?(?::(.*))?$',t)
            if m.group(3):
                vs=[int(x) for x in m.group(3).split(",")]
                c.cases=[dict(d,**{m.group(1):v}) for d in c.cases for v in vs]
            else: c.vars.append((m.group(1),m.group(2)))
        if cases: c.cases=cases
        c.ucases=[]
        if c.unb:
            for d in c.cases:
                d={k:v for k,v in d.items() if k not in c.idx and k not in[x[0] for x in rng or ()]}; d["n"]="*"
                if d not in c.ucases: c.ucases.append(d)
        if cases and "n" in cases[0]: c.seq="v"
        c.doc=(post.__doc__ or "").strip()
        CONTRACTS.setdefault(c.prop,[]).append(c)
        return post
    return deco
class USeq:
    """the points of a container of any length (symbolic)"""
    def __init__(s,name,n): s.name=name; s.n=n
    def __getitem__(s,k): return (SEL(s.name+".x",R(k)),SEL(s.name+".y",R(k)))
def SubSeq(v,lo,hi):
    """the positions [lo,hi) of a container"""
    if isinstance(v,USeq): return SubU(v,lo,hi)
    return Seq(v.pts[int(lo):int(hi)])
class SubU(USeq):
    def __init__(s,v,lo,hi): s.v=v; s.lo=lo; s.n=R(hi)-lo
    def __getitem__(s,k): return s.v[R(k)+s.lo]
class Seq:
    """the points of a container"""
    def __init__(s,pts): s.pts=pts; s.n=len(pts)
    def __getitem__(s,k): return s.pts[k]
    def __len__(s): return s.n
    def __iter__(s): return iter(s.pts)
def varsof(c,vals):
    """the free variables of one case"""
    if c.seq is None or vals["n"]=="*": return c.vars
    return [("%s%d%s"%(c.seq,k,d),None) for k in range(int(vals["n"])) for d in "xy"]+c.vars
def inputs_of(c,M,vals):
    i=NS(vals)
    if c.seq is not None and isinstance(vals["n"],Rat):
        setattr(i,c.seq,USeq(c.seq,vals["n"]))
        return i,list(c.inp(M,i) if c.inp else [vals[k] for k in c.cases[0] if k!="n"]+[vals[nm] for nm,_ in c.vars])
    if c.seq is not None:
        n=int(vals["n"]); pts=[(vals["%s%dx"%(c.seq,k)],vals["%s%dy"%(c.seq,k)]) for k in range(n)]
        setattr(i,c.seq,Seq(pts))
        rest=c.inp(M,i) if c.inp else [vals[k] for k in c.cases[0] if k!="n"]+[vals[nm] for nm,_ in c.vars]
        return i,[n]+[x for p in pts for x in p]+list(rest)
    l=c.inp(M,i) if c.inp else [vals[n] for n,_ in c.vars] if not c.cases[0] else [vals[k] for k in c.cases[0]]+[vals[n] for n,_ in c.vars]
    return i,l

# ------------------------------------------------------------------ build
CXX=["clang++-18","-std=c++17","-ffp-contract=off","-w","-I"+REPO,"-I"+os.path.join(ROOT,"w")]
OPT="function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)"
class BuildError(Exception): pass
def flags(src):
    """compiler flags a unit asks for in its first line"""
    l=open(src).readline()
    return l.split("FLAGS:")[1].split() if "FLAGS:" in l else []
def build_ir(tu,bd,defs=()):
    src=os.path.join(ROOT,"w",tu+".cpp"); raw=os.path.join(bd,tu+".raw.ll"); out=os.path.join(bd,tu+".ll")
    p=subprocess.run(CXX+flags(src)+list(defs)+["-O0","-Xclang","-disable-O0-optnone","-fno-math-errno","-S","-emit-llvm",src,"-o",raw],capture_output=True,text=True)
    if p.returncode: raise BuildError(p.stderr[:4000])
    p=subprocess.run(["opt-18","-S","-passes="+OPT,raw,"-o",out],capture_output=True,text=True)
    if p.returncode: raise BuildError(p.stderr[:4000])
    os.unlink(raw)
    return out
def start_native(tu,bd,defs=()):
    src=os.path.join(ROOT,"w",tu+".cpp"); so=os.path.join(bd,tu+".so")
    return so,subprocess.Popen(CXX+flags(src)+list(defs)+["-O1","-shared","-fPIC","-Wl,-Bsymbolic","-include",os.path.join(ROOT,"w","native.hpp"),src,"-o",so],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True)

class Native:
    """the real code, compiled; each call in this process (used in a forked child)"""
    def __init__(s,so):
        s.lib=ctypes.CDLL(so); s.call=s.lib.vc_call
        s.call.argtypes=[ctypes.c_void_p,ctypes.c_void_p,ctypes.c_void_p]; s.call.restype=ctypes.c_int
    def run(s,fn,inp,nout):
        a=(ctypes.c_double*max(1,len(inp)))(*inp); o=(ctypes.c_double*(nout+8))(*([math.nan]*(nout+8)))
        r=s.call(ctypes.cast(getattr(s.lib,fn),ctypes.c_void_p),a,o)
        return r,list(o)
def in_child(f,secs):
    """run f() in a child process with a time limit; its picklable result or None"""
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        os.close(r)
        try:
            signal.alarm(0)
            d=pickle.dumps(f())
            with os.fdopen(w,"wb") as h: h.write(d)
        except BaseException:
            try: traceback.print_exc()
            except Exception: pass
        os._exit(0)
    os.close(w); buf=b""; end=time.time()+secs
    with os.fdopen(r,"rb") as h:
        while True:
            t=end-time.time()
            if t<=0: break
            if select.select([h],[],[],t)[0]:
                d=os.read(h.fileno(),1<<20)
                if not d: break
                buf+=d
    try: os.kill(pid,signal.SIGKILL)
    except OSError: pass
    _,stt=os.waitpid(pid,0)
    try: return pickle.loads(buf) if buf else None
    except Exception: return None

POOL=[0.,1.,-1.,2.,-2.,3.,-3.,0.5,-0.5,4.,5.,7.25,-6.5,10.,0.25,1.5,-1.5,100.,0.1,-0.3,1000.]
def somecase(c,rng):
    vals=dict(rng.choice(c.cases))
    if c.unb and rng.random()<.5:
        vals["n"]=c.unb*rng.randint(0,12//c.unb)
        for x in c.idx: vals[x]=rng.randrange(max(1,vals["n"]))
        for x,lo,hi in c.rng or (): vals[x]=rng.randint(lo,max(lo,vals["n"] if hi=="n" else hi))
    return vals
def sample(c,rng):
    mode=rng.random()
    vals=somecase(c,rng); prev=[]
    for n,sg in varsof(c,vals):
        x=rng.random()
        if prev and x<0.12: v=rng.choice(prev)
        elif prev and x<0.15: v=rng.choice(prev)+rng.choice([1e-9,-1e-9,1e-7,1e-5,1e-3,-1e-4,1e-11])
        elif mode<0.4: v=float(rng.randint(-4,4)) 
        elif x<0.75: v=rng.choice(POOL)
        else: v=rng.uniform(-10,10)
        if sg in(">0",): v=abs(v) or rng.choice([1.,.5,2.,3.])
        elif sg==">=0": v=abs(v)
        elif sg=="!=0" and v==0: v=rng.choice([1.,-1.,.5,-2.])
        vals[n]=v; prev.append(v)
    return vals
def eval_native(c,nat,vals):
    """None: precondition not met / unsure;  list of labels clearly violated"""
    M=FM()
    try:
        i,l=inputs_of(c,M,vals)
        l=[float(x) for x in l]
        if any(_nan(x) for x in l): return None
        for n,sg in varsof(c,vals):
            v=vals[n]
            if (sg==">0" and not v>0) or (sg==">=0" and not v>=0) or (sg=="!=0" and v==0): return None
        if c.pre:
            for b in c.pre(M,i):
                if b is not True: return None
        ret,o=nat.run(c.fn,l,c.nout)
        r=Result(ret==-1001,ret,lambda k:o[k])
        if ret==-1002: return [("no assertion failure",l,ret,o[:c.nout])]
        bad=[]
        for lab,b in c.post(M,i,r):
            lab=lab[1:] if lab.startswith("~") else lab
            if b is False: bad.append((lab,l,ret,o[:c.nout]))
        return bad
    except (Unsure,ZeroDivisionError,OverflowError,ValueError): return None
def native_search(c,so,secs,seed=1,labels=None,models=(),exact=None):
    """directed search for an input on which the real code breaks the contract"""
    dn=os.open(os.devnull,os.O_WRONLY); os.dup2(dn,2); os.dup2(dn,1)
    nat=Native(so); rng=random.Random(seed); n=0; noise=0; rejected=[]; ok=0; end=time.time()+secs
    def near(m):
        for k in range(60):
            v=dict(m)
            for kk,vv in c.cases[0].items(): v.setdefault(kk,vv)
            for nm,_ in varsof(c,v):
                if nm not in v: v[nm]=rng.choice(POOL)
                elif k and isinstance(v[nm],float) and rng.random()<.4: v[nm]=rng.choice([round(v[nm],2),round(v[nm]),v[nm]*rng.choice([.5,2,10,1.1]),rng.choice(POOL)])
            yield v
    def cand():
        for m in models:
            yield from near(m)
        while True:
            if c.gen and rng.random()<.6:
                yield dict(rng.choice(c.cases),**c.gen(rng))
            else: yield sample(c,rng)
    for v in cand():
        if time.time()>end: break
        n+=1
        b=eval_native(c,nat,v)
        if b is None: continue
        ok+=1
        if b:
            if exact is not None:
                e=exact(v)
                if e=="holds" or (e=="unknown" and not nice(c,v)):
                    # rounding only: exact arithmetic meets the contract on this very input
                    noise+=1
                    if len(rejected)<3: rejected.append(v)
                    if noise>40: break
                    continue
            elif not nice(c,v): continue
            return dict(found=True,tried=n,in_pre=ok,vals=v,label=b[0][0],inp=b[0][1],ret=b[0][2],out=b[0][3],exact=e if exact is not None else None)
    return dict(found=False,tried=n,in_pre=ok,rounding_only=noise)
def nice(c,v):
    l=[float(v[n]) for n,_ in varsof(c,v)]
    if any(x and not 1e-3<=abs(x)<=1.1e3 for x in l): return False
    l.sort()
    return all(b==a or b-a>=1e-3 for a,b in zip(l,l[1:]))
def exact_check(mod,c,vals,summaries):
    """the contract on one concrete input in exact arithmetic: 'holds', 'fails' or 'unknown'"""
    case={k:vals[k] for k in c.cases[0]}
    try:
        eng,_=verify_case(mod,c,case,summaries,time.time()+20,{n:Fraction(vals[n]) for n,_ in varsof(c,vals)})
        res="holds"
        for o in eng.obls:
            if o.status=="proved": continue
            st=solve.prove(eng.z,o.pc,o.goal,quick_ms=500,hard_s=0).status
            if st=="refuted": return "fails"
            if st!="proved": res="unknown"
        return res
    except Exception as e: return "unknown"

# ------------------------------------------------------------------ symbolic verification of one contract case
SIGN={">0":"+",">=0":"0+"}
def mkvar(n,sg):
    v=var(n); a=ATOMS[next(iter(patoms(v.n)))]
    if sg in SIGN: a.info={"sign":SIGN[sg]}
    return v
def verify_case(mod,c,case,summaries,t_end,conc=None):
    unb=case.get("n")=="*"
    eng=(seq.SeqEngine if unb else Engine)(mod,feas_ms=c.feas,maxpaths=c.maxpaths,deadline=t_end)
    for k,v in c.opts.items(): setattr(eng,k,v)
    logic.SQCMP[0]=bool(c.opts.get("sqcmp"))
    for sm in summaries: sm.install(eng)
    if c.opts.get("setup"): c.opts["setup"](eng)
    vals=dict(case)
    st=State()
    for n,sg in varsof(c,vals):
        if conc is not None: vals[n]=R(conc[n]); continue
        vals[n]=mkvar(n,sg)
        if sg=="!=0": st.assume(NE(vals[n],0))
    if unb:
        m_=var("n","I"); st.assume(GE(m_,-(-c.unb_min//c.unb))); vals["n"]=m_*c.unb; i0=[]
        for x in c.idx: vals[x]=var(x,"I"); st.assume(GE(vals[x],0)); st.assume(LT(vals[x],vals["n"]))
        if c.rng:
            for x,lo,hi in c.rng: 
                if x not in vals or not isinstance(vals[x],Rat): vals[x]=var(x,"I")
                st.assume(GE(vals[x],lo)); st.assume(LE(vals[x],vals["n"] if hi=="n" else hi))
    M=SM(None)
    i,l=inputs_of(c,M,vals)
    if c.pre:
        M0=SM(st.sign,st)
        for b in c.pre(M0,i): st.assume(b)
    inp=st.new(8*len(l)+8,"in","in"); out=st.new(8*c.nout,"out","out")
    for k,x in enumerate(l): st.mem[inp.o].cells[8*k]=(8,R(x) if not isinstance(x,float) else fconst(x))
    st.frames.append(Frame(engine.FINISH))
    fn="@"+c.fn+("_v" if unb else "")
    if fn not in mod.funcs: raise Unsupported("no such function "+fn)
    if unb:
        data=st.new(R(vals["n"])*24,"in","points"); st.w(data.o).seq=seq.SeqData(24,seq.PointInput(c.seq))
        vec=st.new(24,"in","vector")
        for k,p in ((0,data),(8,Ptr(data.o,R(vals["n"])*24)),(16,Ptr(data.o,R(vals["n"])*24))): st.mem[vec.o].cells[k]=(8,p)
        eng.call(st,fn,[vec,inp,out])
    else: eng.call(st,fn,[inp,out])
    outs=eng.run(st,stop_depth=1)
    npaths=0
    for o in outs:
        if o.kind in("infeasible","unreachable"): continue
        if False in o.st.pcset: continue
        npaths+=1
        if o.kind=="abort":
            eng.oblige(o.st,"no assertion failure",False,"abort: %s"%o.info); continue
        M=SM(o.st.sign)
        cells=o.st.mem[out.o].cells
        def get(k):
            x=cells.get(8*k)
            if x is None: raise KeyError("output %d not written"%k)
            v=x[1]
            if isinstance(v,int): v=eng.coerce(o.st,v,ir.DBL)
            if v is UNDEF: raise KeyError("output %d undefined"%k)
            return R(v)
        val=o.val
        if isinstance(val,Rat) and val.isconst(): val=int(val.const())
        if isinstance(val,bool): val=int(val)
        if isinstance(val,B): val=ITE(val,1,0,"I")
        vs=[val]
        if isinstance(val,Rat):   # split on the boolean result
            vs=[0,1]
        for rv in vs:
            s2=o.st
            if isinstance(val,Rat):
                s2=o.st.copy(); s2.assume(EQ(val,rv))
                # an ite(c,1,0) result gives back its condition
                if val.d==ONE and len(val.n)==1:
                    A=ATOMS[next(iter(val.n))[0][0]]
                    if A.kind=="ite" and A.args[1]==RONE and A.args[2]==RZERO: s2.assume(A.args[0] if rv else NOT(A.args[0]))
                if False in s2.pcset: continue
            r=Result(o.kind=="throw",rv,get)
            for lab,b in c.post(SM(s2.sign,s2),i,r):
                if lab.startswith("~"):     # lemma: proved, then used
                    eng.oblige(s2,lab[1:],b); s2.assume(b)
                else: eng.oblige(s2,lab,b)
    return eng,npaths
def run_task(mod,c,ci,summaries,t_end,so=None):
    """verify one contract case; returns a plain dict"""
    case=c.cases[ci] if isinstance(ci,int) else c.ucases[int(ci[1:])]; t0=time.time()
    res=dict(contract=c.name,case=case,fn=c.fn,obls=[],paths=0,error=None,functions=[],opaque=[],extern=[],modelled=[],time=0,solver_q=0)
    try:
        eng,np=verify_case(mod,c,case,summaries,t_end)
    except (Unsupported,PathLimit,TooBig,Undef,KeyError) as e:
        res["error"]="%s: %s"%(type(e).__name__,e)
        if os.environ.get("VC_DEBUG"): traceback.print_exc()
        res["time"]=time.time()-t0
        return res
    res["paths"]=np
    res["explore_time"]=time.time()-t0
    seen={}
    for o in eng.obls:
        if o.status=="proved": st=solve.Res("proved",o.backend,0)
        elif time.time()>t_end: st=solve.Res("unknown","deadline",0)
        else:
            k=(frozenset(c_.key() if c_ is not False else False for c_ in o.pc),o.goal.key() if not isinstance(o.goal,bool) else o.goal)
            if k in seen: st=seen[k]
            else:
                st=solve.prove(eng.z,o.pc,o.goal,quick_ms=c.quick_ms,hard_s=min(c.hard,max(1,t_end-time.time())))
                seen[k]=st
        d=dict(name=o.name,status=st.status,backend=st.backend,time=round(st.time,3))
        if st.status!="proved":
            d["model"]=st.model
            d["goal"]=str(o.goal)[:600]; d["pc"]=[str(x)[:300] for x in o.pc][:40]; d["info"]=o.info
        res["obls"].append(d)
    fs={}
    for n in eng.called: fs[n]=mod.funcs[n].dem
    res["functions"]=sorted(x for x in fs.values() if "h2d::" in x)
    res["library"]=sorted(x for x in fs.values() if "h2d::" not in x)
    res["opaque"]=sorted(eng.opaque); res["extern"]=sorted(eng.extern); res["modelled"]=sorted(eng.modelled)
    res["summaries_used"]=sorted(getattr(eng,"summ_used",()))
    res["time"]=time.time()-t0; res["feas_queries"]=eng.nq; res["feas_time"]=round(eng.solver_time,2)
    return res
# ------------------------------------------------------------------ optional models of library functions
def itemax(e,st,dem,name,args,ins):
    """std::max / std::min of two doubles as a conditional value instead of two paths (the result is not written through)"""
    m=re.match(r"double const& std::(max|min)<double>\(double const&, double const&\)$",dem)
    if not m: return None
    a,b=[e.real(e.load(st,p,ir.DBL)) for p in args]
    c=LT(a,b,st.sign) if m.group(1)=="max" else LT(b,a,st.sign)
    if isinstance(c,bool): return ("val",args[1 if c else 0])
    o=st.new(8,"max"); e.store(st,o,ir.DBL,ITE(c,b,a)); return ("val",o)
def ptnorm(e,st,dem,name,args,ins):
    """point normalisation, by its contract (C24.normalised, verified by execution of its body): the three values change sign if the
    first is negative - as a conditional sign instead of two paths. Only where it cannot throw: else its body is executed."""
    if not re.match(r"h2d::base::LPBase<h2d::typ::IsPoint, double>::impl_normalize\(",dem): return None
    p=args[0]; q=[Ptr(p.o,R(p.off)+o) if isinstance(p.off,Rat) else Ptr(p.o,p.off+o) for o in(0,8,16)]
    x,y,w=[e.real(e.load(st,a,ir.DBL)) for a in q]
    if not(w==R(1) or w==R(-1) or e.decide(st,OR(LE(R(1),w),LE(w,R(-1)))) is True): return None
    c=LT(x,R(0),st.sign); d=e.decide(st,c)
    if d is False: return ("val",None)
    sg=R(-1) if d is True else ITE(c,R(-1),R(1))
    for a,v in zip(q,(x,y,w)): e.store(st,a,ir.DBL,sg*v)
    return ("val",None)
ORDER=r"h2d::base::LPBase<h2d::typ::IsPoint, double>::operator<\(h2d::base::LPBase<h2d::typ::IsPoint, double> const&\) const$"
def anyorder(e,st,dem,name,args,ins):
    """the ordering of two points as an uninterpreted predicate of their coordinates (C31 establishes that it is a function of them)"""
    if not re.match(ORDER,dem): return None
    v=[]
    for p in args:
        x,y,w=[e.real(e.load(st,Ptr(p.o,p.off+o),ir.DBL)) for o in(0,8,16)]
        if not(w==R(1) or w==R(-1) or e.decide(st,EQ(w,R(0))) is False): return None
        v+=[x/w,y/w]
    return ("val",EQ(UF("order",*v),R(0)))
def lexorder(e,st,dem,name,args,ins):
    """the ordering of two points, by its contract (C31.order): by x, then y - as one condition instead of several paths"""
    if not re.match(ORDER,dem): return None
    v=[]
    for p in args:
        x,y,w=[e.real(e.load(st,Ptr(p.o,p.off+o),ir.DBL)) for o in(0,8,16)]
        if not(w==R(1) or w*w==R(1) or e.decide(st,EQ(w,R(0))) is False): return None
        v.append((x/w,y/w))
    (a,b),(c,d)=v
    return ("val",OR(LT(a,c,st.sign),AND(EQ(a,c,st.sign),LT(b,d,st.sign))))
def symorder(e,st,dem,name,args,ins):
    """priv::fix_order(a,b), by its contract (C08: the two points, the smallest first): the middle plus and minus half the difference,
    with the sign given by the order of the points taken as an uninterpreted predicate of their coordinates"""
    if not re.match(r"void h2d::priv::fix_order<double>\(",dem): return None
    v=[]
    for p in args:
        x,y,w=[e.real(e.load(st,Ptr(p.o,p.off+o),ir.DBL)) for o in(0,8,16)]
        if w!=R(1) and w*w!=R(1): return None
        v.append((x/w,y/w))
    s=ITE(EQ(UF("order",*v[0],*v[1]),R(0)),R(1),R(-1)); h=R(1)/R(2)
    for k,p in enumerate(args):
        t=s if k==0 else -s; f=[h*(a+b)+h*t*(a-b) for a,b in zip(*v)]
        g=ITE(LT(f[0],R(0)),R(-1),R(1))
        for o,x in((0,g*f[0]),(8,g*f[1]),(16,g)): e.store(st,Ptr(p.o,p.off+o),ir.DBL,x)
    return ("val",None)
def sumhit(e,st,dem,name,args,ins):
    """SegVec::intersects(SegVec), by the part of its contract that C11 establishes: a function of the two segments that does not depend
    on which is asked - an uninterpreted predicate of them (each named by the sum of its two points)"""
    if not re.search(r"SegVec<h2d::typ::\w+, double>::intersects<h2d::typ::\w+, double>\(h2d::base::SegVec",dem): return None
    ks=[]
    for p in args[1:3]:
        s=[R(0),R(0)]
        for b in(8,32):
            x,y,w=[e.real(e.load(st,Ptr(p.o,p.off+b+o),ir.DBL)) for o in(0,8,16)]
            if not(w==R(1) or w*w==R(1) or e.decide(st,EQ(w,R(0))) is False): return None
            s[0]+=x/w; s[1]+=y/w
        ks.append(s)
    ks.sort(key=str); c=EQ(UF("meet",*ks[0],*ks[1]),R(0)); d=e.decide(st,c); out=[]
    for v in(1,0):
        if d is (not v): continue
        t=st.copy(); t.assume(c if v else NOT(c)); e.store(t,args[0],ir.INT(8),v); out.append((t,None))
    return ("outs",out)
def phases(e,st,dem,name,args,ins):
    """the answer of SegVec::intersects(SegVec) given by the last call of vc_phase: what is proved holds for these answers, whatever the
    points, so for every way in which the crossings change between two phases. The order of the points: either (see anyhit)."""
    if name.lstrip("@")=="vc_phase":
        st.notes.append(e.real(args[0])); return ("val",None)
    if not re.search(r"SegVec<h2d::typ::\w+, double>::intersects<h2d::typ::\w+, double>\(h2d::base::SegVec",dem) or not st.notes: return anyhit(e,st,dem,name,args,ins)
    e.store(st,args[0],ir.INT(8),int(st.notes[-1].const())); return ("val",None)
def anyturn(e,st,dem,name,args,ins):
    """the orientation of three points: any of its three answers, whatever the points (more behaviours than the real ones: what is proved
    holds for every rounding of its arithmetic)"""
    if not re.match(r"int h2d::priv::chull::orientation<double>\(",dem): return None
    return ("outs",[(st.copy(),v%(1<<32)) for v in(-1,0)]+[(st,1)])
def anyhit(e,st,dem,name,args,ins):
    """SegVec::intersects(SegVec) and the ordering of points, by the part of their contracts that C11 and C31 establish: they return,
    change nothing, and give either answer (more behaviours than the real ones: sound for what does not depend on the answer)"""
    if re.match(r"h2d::base::LPBase<h2d::typ::IsPoint, double>::operator<\(h2d::base::LPBase<h2d::typ::IsPoint, double> const&\) const$",dem):
        return ("outs",[(st,1),(st.copy(),0)])
    if not re.search(r"SegVec<h2d::typ::\w+, double>::intersects<h2d::typ::\w+, double>\(h2d::base::SegVec",dem): return None
    out=[]
    for v in(1,0):
        t=st if v==0 else st.copy()
        e.store(t,args[0],ir.INT(8),v); out.append((t,None))
    return ("outs",out)
