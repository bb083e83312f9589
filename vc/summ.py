"""Contracts on internal functions.  A summary is used at call sites only after its body has been verified against it in this
very run; if the body does not meet it (or the function is gone) the callers are verified with the body inlined."""
import re
import alg, logic, solve
from alg import *
from logic import *
from engine import *
import ir

def line_sigma(a,b,sg):
    """the sign chosen by the normalisation of the direction (a,b):  +1 if a/h >= 1e-10, -1 if a/h <= -1e-10, else the sign of b.
    Returned as an atom with square 1, of the canonical multiple of (a,b)."""
    at=atom("sgn","",(a,b))
    if at.sq is None:
        at.sq=ONE
        at.info={"lnorm":True}
    return at
def canon_vec(v):
    """v = k * w with w a canonical primitive vector of polynomials; returns (k as Rat, w list of Rat)"""
    d=RONE
    from alg import cancel
    # common denominator
    den=ONE
    for x in v:
        if x.d!=ONE:
            q,_=cancel(x.d,den)   # x.d/gcd
            den=pmul(den,q)
    ps=[(x*Rat(den)).n for x in v]
    k=RONE/Rat(den)
    # integer content
    from math import gcd
    l=1
    for p in ps:
        from math import lcm
        l=lcm(l,alg._lcm_den(p))
    if l!=1: ps=[pscale(p,l) for p in ps]; k=k*R(Fraction(1,l))
    g=0
    for p in ps: g=gcd(g,alg._content(p))
    if g>1: ps=[{m:c//g for m,c in p.items()} for p in ps]; k=k*g
    # polynomial gcd
    nz=[p for p in ps if p]
    G=nz[0]
    for p in nz[1:]:
        G=pgcd(G,p)
        if is_const(G): break
    if not is_const(G) :
        ps=[cancel(p,G)[0] if p else p for p in ps]; k=k*Rat(G)
    lead=nz[0][max(nz[0])] if True else 1
    first=[p for p in ps if p][0]
    if first[max(first)]<0: ps=[pneg(p) for p in ps]; k=-k
    return k,[Rat(p) for p in ps]
def pgcd(p,q):
    if not p: return q
    if not q: return p
    ids=tuple(sorted(patoms(p)|patoms(q)))
    if len(p)>200 or len(q)>200: return ONE
    try: return fromsym(tosym(p,ids).gcd(tosym(q,ids)),ids)
    except Exception: return ONE

class Summary:
    name="?"
    rx=None
    def __init__(s,fname,dem): s.fname=fname; s.dem=dem
    def install(s,eng):
        def call(e,st,args):
            if not hasattr(e,"summ_used"): e.summ_used=set()
            r=s.apply(e,st,args)
            if r is not None: e.summ_used.add(s.dem)
            return r
        eng.contracts[s.fname]=call

EPS=Fraction(repr(2.220446049250313e-16)); T10=Fraction(1,10**10)
class LineNormalize(Summary):
    """LPBase<IsLine>::p_normalizePL / impl_normalize: throws iff hypot(a,b) <= epsilon; else v := s*v/hypot(a,b), s = sigma(a,b)"""
    name="line normalisation"
    rx=re.compile(r"h2d::base::LPBase<h2d::typ::IsLine, double>::p_normalizePL\(\) const$")
    def apply(s,e,st,args):
        p=args[0]
        v=[e.real(e.load(st,Ptr(p.o,e.addoff(p.off,8*i)),ir.DBL)) for i in range(3)]
        a,b=v[0],v[1]
        if not a.n and not b.n: return [Outcome("throw",st)]
        h=SQRT(a*a+b*b,st.sign)
        ok=GT(h,EPS,st.sign)
        outs=[]
        d=e.decide(st,ok)
        if d is not True:
            t=st if d is False else st.copy()
            t.assume(NOT(ok)); outs.append(Outcome("throw",t))
            if d is False: return outs
        st.assume(ok)
        k,w=canon_vec([a,b])
        # sigma(a,b)=sign(k) sigma(w);  v/h = k*v' / (|k| hw)  with v'=v/k
        hw=SQRT(w[0]*w[0]+w[1]*w[1],st.sign)
        if st.sign(hw.n)!="+": st.assume(GT(hw,0))
        c=v[2]/k
        def put(t,sig):
            for i,q in enumerate((w[0],w[1],c)): e.store(t,Ptr(p.o,e.addoff(p.off,8*i)),ir.DBL,sig*q/hw)
            outs.append((t,None))
        if not w[1].n: put(st,w[0]/ABS(w[0],st.sign)); return outs     # b=0: sigma is the sign of a
        if not w[0].n: put(st,w[1]/ABS(w[1],st.sign)); return outs
        if getattr(e,"sgnsplit",False):
            pos=OR(GE(w[0],hw*T10,st.sign),AND(GT(w[0],-hw*T10,st.sign),LT(w[0],hw*T10,st.sign),GE(w[1],0,st.sign)))
            d=e.decide(st,pos)
            if d is None:
                t=st.copy(); t.assume(NOT(pos)); put(t,-RONE)
            st.assume(NOT(pos) if d is False else pos)
            put(st,-RONE if d is False else RONE); return outs
        put(st,R(line_sigma(w[0],w[1],st.sign)))
        return outs
    def verify(s,mod):
        eng=Engine(mod); st=State()
        v=[var("na"),var("nb"),var("nc")]
        size=40
        obj=st.new(size,"this","this")
        for i in range(3): st.mem[obj.o].cells[8*i]=(8,v[i])
        st.frames.append(Frame(FINISH)); eng.call(st,s.fname,[obj])
        outs=eng.run(st,stop_depth=1)
        h=SQRT(v[0]*v[0]+v[1]*v[1]); a,b=v[0],v[1]
        pos=OR(GE(a,h*T10),AND(GT(a,-h*T10),LT(a,h*T10),GE(b,0)))
        for o in outs:
            if o.kind in("infeasible","unreachable"): continue
            if o.kind=="throw": eng.oblige(o.st,"throws only if the direction is null",LE(h,EPS)); continue
            if o.kind!="ret": eng.oblige(o.st,"returns",False); continue
            eng.oblige(o.st,"normalises only a non-null direction",GT(h,EPS))
            c=o.st.mem[obj.o].cells
            if set(c)!={0,8,16}: eng.oblige(o.st,"frame",False)
            sg=o.st.sign
            r=[eng.real(c[8*i][1]) for i in range(3)]
            P=AND(*[EQ(r[i]*h,v[i],sg) for i in range(3)]); N=AND(*[EQ(r[i]*h,-v[i],sg) for i in range(3)])
            eng.oblige(o.st,"sign +1 when it must be",OR(NOT(pos),P)); eng.oblige(o.st,"sign -1 otherwise",OR(pos,N))
        return eng

def _hyp(a,b,sg=None): return SQRT(a*a+b*b,sg)
def rdpoint(e,st,p):
    """the coordinates of a point with third coordinate 1 (None otherwise: the body is then inlined)"""
    v=[e.real(e.load(st,Ptr(p.o,e.addoff(p.off,8*i)),ir.DBL)) for i in range(3)]
    return (v[0],v[1]) if v[2].isconst() and v[2].const()==1 else None
def collinear_facts(p,sg=None):
    """(what a true result guarantees, what a false result guarantees) for three points"""
    a,b,c=p
    ar=(b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])
    d=[_hyp(p[j][0]-p[i][0],p[j][1]-p[i][1],sg) for i,j in((0,1),(0,2),(1,2))]
    t=OR(*[LT(x,T10,sg) for x in d],*[LT(ABS(ar,sg),T10*x,sg) for x in d])
    f=AND(NE(ar,0,sg),*[GE(x,T10,sg) for x in d])
    return t,f
class AreCollinear(Summary):
    """areCollinear(p,q,r): does not throw, changes nothing; true only if two points are within the null distance or one point is
    that close to the line of the other two; false only if the area is not null and the points are pairwise at least that far apart"""
    name="collinear points"
    rx=re.compile(r"^bool h2d::areCollinear<double>\(")
    def apply(s,e,st,args):
        p=[rdpoint(e,st,a) for a in args[:3]]
        if None in p: return None
        t,f=collinear_facts(p,st.sign)
        t2=st.copy(); t2.assume(t); st.assume(f)
        return [(st,False),(t2,True)]
    def verify(s,mod):
        eng=Engine(mod); st=State(); ps=[]; pt=[]; 
        for k in range(3):
            o=st.new(24,"p%d"%k,"this"); x,y,w=var("x%d"%k),var("y%d"%k),RONE
            for i,v in enumerate((x*w,y*w,w)): st.mem[o.o].cells[8*i]=(8,v)
            ps.append(o); pt.append((x,y))
        before=[dict(st.mem[o.o].cells) for o in ps]
        st.frames.append(Frame(FINISH)); eng.call(st,s.fname,ps)
        for o in eng.run(st,stop_depth=1):
            if o.kind in("infeasible","unreachable"): continue
            if o.kind!="ret": eng.oblige(o.st,"returns",False); continue
            if any(o.st.mem[q.o].cells!=b for q,b in zip(ps,before)): eng.oblige(o.st,"frame",False)
            t,f=collinear_facts(pt,o.st.sign); r=o.val
            eng.oblige(o.st,"true only if nearly collinear",t if r is True else OR(NOT(r) if r is not False else True,t))
            eng.oblige(o.st,"false only if not collinear",f if r is False else OR(r,f))
        return eng
class Permute3(Summary):
    """getLargestDistancePoints(p,q,r): does not throw; the result is a permutation of the three points"""
    name="permutation of three points"
    rx=re.compile(r"h2d::priv::getLargestDistancePoints<")
    def apply(s,e,st,args):
        import itertools
        c=[[e.load(st,Ptr(a.o,e.addoff(a.off,8*i)),ir.DBL) for i in range(3)] for a in args[1:4]]
        outs=[]; ps=list(itertools.permutations(range(3)))
        for k,pm in enumerate(ps):
            t=st if k==len(ps)-1 else st.copy()
            for j,q in enumerate(pm):
                for i in range(3): e.store(t,Ptr(args[0].o,e.addoff(args[0].off,24*j+8*i)),ir.DBL,c[q][i])
            outs.append((t,None))
        return outs
    def verify(s,mod):
        import itertools
        eng=Engine(mod); st=State(); ps=[]; v=[]
        for k in range(3):
            o=st.new(24,"p%d"%k,"this"); w=[var("x%d"%k),var("y%d"%k),RONE]
            for i in range(3): st.mem[o.o].cells[8*i]=(8,w[i])
            ps.append(o); v.append(w)
        res=st.new(72,"res","this")
        st.frames.append(Frame(FINISH)); eng.call(st,s.fname,[res]+ps)
        for o in eng.run(st,stop_depth=1):
            if o.kind in("infeasible","unreachable"): continue
            if o.kind!="ret": eng.oblige(o.st,"returns",False); continue
            c=o.st.mem[res.o].cells
            r=[[eng.real(c[24*j+8*i][1]) for i in range(3)] for j in range(3)]
            eng.oblige(o.st,"a permutation",OR(*[AND(*[EQ(r[j][i],v[q][i]) for j,q in enumerate(pm) for i in range(3)]) for pm in itertools.permutations(range(3))]))
        return eng

def iterfn(mod,fname):
    """the comparison a standard algorithm is instantiated with"""
    f=ir.body(mod.funcs[fname],mod); c=set()
    for b in f.blocks.values():
        for i in b:
            if i.op in("call","invoke") and i.a[0]=="g" and i.ty.k=="int" and i.ty.a==1 and ("_Iter_comp_iter" in i.a[1] or "_Iter_less_iter" in i.a[1]): c.add(i.a[1])
    return c.pop() if len(c)==1 else None
def compare(e,st,fn,o,S,i,j):
    """the comparison of elements i and j of the sequence, as a condition (None: not expressible)"""
    t=st.copy(); t.frames=[Frame(FINISH)]
    c=t.new(1,"cmp"); npc=len(t.pc)
    ctx,log,nob=e.ctx,e.forklog,len(e.obls)
    e.ctx=[]; e.forklog=None
    try:
        e.call(t,fn,[c,Ptr(o,R(i)*S),Ptr(o,R(j)*S)])
        alts=[]
        for x in e.run(t,stop_depth=1):
            if x.kind in("infeasible","unreachable"): continue
            if x.kind!="ret": return None
            v=x.val
            if isinstance(v,int): v=bool(v)
            if not isinstance(v,(bool,B)): return None
            alts.append(AND(*[b for b in x.st.pc[npc:]],v))
            for a,ob in st.mem.items():
                y=x.st.mem.get(a)
                if y is not ob and (y is None or y.cells!=ob.cells): return None
    finally: e.ctx=ctx; e.forklog=log
    if len(e.obls)>nob: del e.obls[nob:]; return None
    return OR(*alts)
class ExtremeElement(Summary):
    """std::__min_element / __max_element(first,last): the position of an element not beaten by any element of the range
    (last if the range is empty)"""
    name="extreme element of a range"
    rx=re.compile(r"^_ZSt1[0-9]__(min|max)_element.*_Iter_(comp|less)_iter|std::__(min|max)_element<.*_Iter_(comp|less)_iter")
    @classmethod
    def which(s,fname): return ("min",) if "__min_element" in fname else ("max",)
    def loses(s,e,st,fn,w,o,S,j,best):
        """element j beats the result"""
        return compare(e,st,fn,o,S,j,best) if w=="min" else compare(e,st,fn,o,S,best,j)
    def apply(s,e,st,args):
        import seq
        if not isinstance(e,seq.SeqEngine): return None
        a,b=args[0],args[1]
        if not(isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o): return None
        ob=st.mem[a.o]
        if ob.seq is None or ob.seq.S!=24: return None
        fn=iterfn(e.m,s.fname)
        if fn is None: return None
        S=24; lo,c0=seq.splitoff(a.off,S); hi,c1=seq.splitoff(b.off,S)
        if c0 or c1 or e.decide(st,LE(lo,hi)) is not True: return None
        ws=s.which(s.fname); outs=[]
        empty=EQ(lo,hi); d=e.decide(st,empty)
        val=lambda ps: ps[0] if len(ps)==1 else list(ps)
        if d is not False:
            t=st if d is True else st.copy()
            t.assume(empty); outs.append((t,val([b if len(ws)==1 else a for _ in ws])))
            if d is True: return outs
        st.assume(NOT(empty)); st.assume(LT(lo,hi))
        j=e.freshvar("j","I"); res=[]; facts=[]
        ks=[e.freshvar("e","I") for _ in ws]
        for k in ks: st.assume(GE(k,lo)); st.assume(LT(k,hi))
        t=st.copy(); t.assume(GE(j,lo)); t.assume(LT(j,hi))
        try:
            for i in ks+[j]:
                w=e.real(e.load(t,Ptr(a.o,R(i)*S+16),ir.DBL))
                if not(w.isconst() and w.const()==1): return None
            for w,k in zip(ws,ks):
                c=s.loses(e,t,fn,w,a.o,S,j,k)
                if c is None: return None
                facts.append(seq.Fact(j,lo,hi,NOT(c)))
        except seq.NeedSplit: return None
        st.arrfacts=st.arrfacts+[f for f in facts if isinstance(f.body,B)]
        outs.append((st,val([Ptr(a.o,k*S) for k in ks])))
        return outs
    def verify(s,mod):
        import seq
        eng=seq.SeqEngine(mod); st=State()
        n=var("n","I"); st.assume(GE(n,0))
        data=st.new(n*24,"in","points"); st.w(data.o).seq=seq.SeqData(24,seq.PointInput("e"))
        fn=iterfn(mod,s.fname)
        if fn is None: raise Unsupported("comparison not found")
        args=[data,Ptr(data.o,n*24)]
        f=ir.body(mod.funcs[s.fname],mod)
        if len(f.params)!=2: raise Unsupported("a comparison with state")
        st.frames.append(Frame(FINISH)); eng.call(st,s.fname,args)
        ws=s.which(s.fname)
        for o in eng.run(st,stop_depth=1):
            if o.kind in("infeasible","unreachable"): continue
            if o.kind!="ret": eng.oblige(o.st,"returns",False); continue
            if o.st.mem[data.o].seq.layers or o.st.mem[data.o].cells: eng.oblige(o.st,"frame",False); continue
            ps=[o.val] if len(ws)==1 else list(o.val)
            for w,p in zip(ws,ps):
                if not isinstance(p,Ptr) or p.o!=data.o: eng.oblige(o.st,"a position of the range",False); continue
                k,_=seq.splitoff(p.off,24)
                eng.oblige(o.st,"a position of the range",OR(AND(EQ(n,0),EQ(k,0)),AND(GE(k,0),LT(k,n))))
                if eng.decide(o.st,EQ(n,0)) is True: continue
                j=eng.freshvar("j","I"); t=o.st.copy()
                t.assume(GE(j,0)); t.assume(LT(j,n)); t.assume(GE(k,0)); t.assume(LT(k,n))
                if False in t.pcset or eng.decide(t,LT(j,n)) is False: continue
                c=s.loses(eng,t,fn,w,data.o,24,j,k)
                if c is None: raise Unsupported("comparison")
                eng.oblige(t,"no element beats the %s"%w,NOT(c))
        return eng
class MinMaxElement(ExtremeElement):
    """std::__minmax_element(first,last): positions of elements none of which is beaten (first, first if the range is empty)"""
    name="extreme elements of a range"
    rx=re.compile(r"^_ZSt16__minmax_element.*_Iter_(comp|less)_iter|std::__minmax_element<.*_Iter_(comp|less)_iter")
    @classmethod
    def which(s,fname): return ("min","max")
SUMMARIES=[LineNormalize,AreCollinear,Permute3,ExtremeElement,MinMaxElement]

# axioms of the sign atom for the solver: s=1 or s=-1, with the defining inequalities on (a,b)
def sgn_axioms(z,i,A):
    import z3
    q=z.zatom(i); a,b=A.args
    h2=None
    hh=SQRT(a*a+b*b)
    dep=set(patoms(hh.n))|patoms(hh.d)|patoms(a.n)|patoms(b.n)
    pos=z3.Or(z.b(GE(a,hh*T10)),z3.And(z.b(GT(a,-hh*T10)),z.b(LT(a,hh*T10)),z.b(GE(b,0))))
    return [z3.Or(q==1,q==-1),z3.Implies(pos,q==1),z3.Implies(z3.Not(pos),q==-1)],dep
