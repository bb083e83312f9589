"""Sequences of symbolic length, facts quantified over positions, and loop summaries.

A loop whose number of iterations depends on a symbolic integer is summarised at its header by an invariant of these shapes, all
of them checked on the code of the body (executed symbolically for an arbitrary iteration k >= 0):
  * inductive locations          v = v0 + k*delta                       (checked: every way back to the header adds delta)
  * sums                         v = v0 + SUM_{j<k} f(j)                (checked: every way back adds f(k), f free of the state)
  * locations updated by some ways back: untouched so far, or u(b) for the last updating iteration b < k   (checked: the other ways keep them)
  * elements written             s[i0+j] = f(j) for j < k               (checked: every way back writes exactly s[i0+k])
  * for all j < k: the conditions, free of the state, of one of the ways back          (what iteration j has gone through)
  * for all j < k: iteration j would not update the present state       (candidate, kept only if checked to be inductive)
Anything else is an arbitrary value.  The rest of the program is run from the loop exits reached in an arbitrary iteration."""
import itertools, time
import alg, logic, ir
from alg import *
from logic import *
import engine
from engine import *

TRACE=bool(__import__('os').environ.get('VC_TRACE'))
class NeedSplit(Exception):
    def __init__(s,cond): s.cond=cond

class SeqData:
    """contents of an object of symbolic size: layers of writes over a base"""
    __slots__=("S","layers","base")
    def __init__(s,S=None,base=None): s.S=S; s.layers=[]; s.base=base
    def clone(s):
        t=SeqData(s.S,s.base); t.layers=list(s.layers); return t
class PointInput:
    """the elements of a container of points given as input"""
    stride=24
    def __init__(s,name): s.name=name
    def cell(s,idx,c,sz):
        if c in(0,8): return SEL("%s.%s"%(s.name,"xy"[c//8]),idx)
        if c==16: return RONE
        raise Unsupported("cell %d of an input point"%c)
def splitoff(off,S):
    """byte offset -> (index, offset in the element)"""
    off=R(off)
    if off.d!=ONE: raise Unsupported("offset")
    c=off.n.get((),0)
    if type(c) is not int: raise Unsupported("offset")
    r=c%S; n={}
    for m,x in off.n.items():
        if not m: x=x-r
        if type(x) is not int or x%S: raise Unsupported("offset not a multiple of the element size")
        if x: n[m]=x//S
    return Rat(n),r
def stride_of(off):
    g=0
    from math import gcd
    for m,x in R(off).n.items():
        if m: 
            if type(x) is not int: raise Unsupported("stride")
            g=gcd(g,x)
    return g

def vkey(v):
    if isinstance(v,bool): return ("i",int(v))
    if isinstance(v,int): return ("i",v)
    if isinstance(v,Rat): return ("i",int(v.const())) if v.isconst() and v.const().denominator==1 else ("r",v.key)
    if isinstance(v,B): return ("b",v.key())
    if isinstance(v,Ptr): return ("p",v.o,vkey(v.off))
    if isinstance(v,Fn): return ("f",v.name)
    if isinstance(v,(list,tuple)): return tuple(vkey(x) for x in v)
    if v is UNDEF: return ("u",)
    return ("o",id(v))
def veq(a,b): return vkey(a)==vkey(b)
def vdeps(v):
    if isinstance(v,(Rat,B)): return deps_of(v)
    if isinstance(v,Ptr): return vdeps(v.off)
    if isinstance(v,(list,tuple)):
        r=set()
        for x in v: r|=vdeps(x)
        return r
    return set()
def vsub(v,m,sign=None,cache=None):
    if isinstance(v,Rat):
        r=substR(v,m,sign,cache); return int(r.const()) if r.isconst() and r is not v and r.const().denominator==1 and not v.isconst() and isint(v.n) else r
    if isinstance(v,B): return substB(v,m,sign,cache)
    if isinstance(v,Ptr):
        if isinstance(v.off,int): return v
        r=substR(v.off,m,sign,cache); return Ptr(v.o,int(r.const()) if r.isconst() else r)
    if isinstance(v,(list,tuple)): return type(v)(vsub(x,m,sign,cache) for x in v)
    return v

# ------------------------------------------------------------ quantified facts
class Fact:
    """for all j in [lo,hi): body(j)"""
    __slots__=("j","lo","hi","body","pats")
    def __init__(s,j,lo,hi,body):
        s.j=j; s.lo=R(lo); s.hi=R(hi); s.body=body
        jid=atomid(j); s.pats=[]
        seen=set()
        for a in bdeps(body):
            A=ATOMS[a]
            if A.kind=="sel" and jid in adeps(a):
                ix=A.args[0]; k=tuple(sorted(ix.n.items()))
                if (A.name,k) in seen: continue
                seen.add((A.name,k))
                cf=ix.n.get(((jid,1),),0)
                rest=Rat({m:c for m,c in ix.n.items() if m!=((jid,1),)})
                if ix.d==ONE and cf and jid not in deps_of(rest): s.pats.append((A.name,cf,rest))
    def key(s): return (s.lo.key,s.hi.key,s.body.key() if isinstance(s.body,B) else s.body,atomid(s.j))
    def inst(s,t,sign=None):
        g=AND(LE(s.lo,t),LT(t,s.hi))
        if g is False: return True
        return OR(NOT(g),substB(s.body,{atomid(s.j):R(t)},sign))
def atomid(v): return next(iter(patoms(v.n)))

class LoopInfo: pass
def loops_of(f):
    """natural loops: header -> set of blocks"""
    if f.loops is not None: return f.loops
    succ={}
    for b,ins in f.blocks.items():
        t=ins[-1]
        if t.op=="jmp": succ[b]=[t.a]
        elif t.op=="br": succ[b]=[t.b,t.c]
        elif t.op=="switch": succ[b]=[t.b]+[l for _,l in t.c]
        elif t.op=="invoke": succ[b]=[t.c[0]]
        else: succ[b]=[]
    order=[]; seen=set(); st=[(f.entry,iter(succ.get(f.entry,[])))]; seen.add(f.entry)
    while st:
        b,it=st[-1]
        for x in it:
            if x not in seen: seen.add(x); st.append((x,iter(succ.get(x,[])))); break
        else: order.append(b); st.pop()
    rpo=order[::-1]; pred={b:[] for b in rpo}
    for b in rpo:
        for x in succ[b]:
            if x in pred: pred[x].append(b)
    dom={b:set(rpo) for b in rpo}; dom[f.entry]={f.entry}; ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            n=set.intersection(*[dom[p] for p in pred[b]])|{b}
            if n!=dom[b]: dom[b]=n; ch=True
    L={}
    for b in rpo:
        for h in succ[b]:
            if h in dom[b]:
                body=L.setdefault(h,{h}); w=[b]
                while w:
                    x=w.pop()
                    if x in body: continue
                    body.add(x); w+=pred[x]
    f.loops=L
    return L
def icond(c):
    """the condition speaks about integers only (a symbolic number of iterations)"""
    if isinstance(c,bool): return False
    if c.op in("and","or"): return any(icond(x) for x in c.a)
    if c.op in("bv","nbv"): return False
    return isint(c.a) and bool(patoms(c.a))

_oi={}
def onlyint(c):
    """a condition on integer variables only"""
    k=c.key(); r=_oi.get(k)
    if r is None:
        if c.op in("and","or"): r=all(onlyint(x) for x in c.a)
        else: r=c.op not in("bv","nbv") and isint(c.a) and all(ATOMS[a].kind=="var" for a in patoms(c.a))
        _oi[k]=r
    return r
class SeqEngine(Engine):
    def __init__(s,*a,**k):
        super().__init__(*a,**k); s.linonly=True; s.rounds=1; s.loops=s; s.ctx=[]; s.forklog=None; s.summarised=set(); s.nsum=0; s.nomerge=False; s.pin=None; s.cases_cache={}
    # -------------------------------------------------------- facts
    def sync(s,st,bs):
        """instances of the quantified facts at the positions that occur"""
        if not st.arrfacts: return
        known=set(st.inst)
        for rnd in range(s.rounds):
            ats=set()
            for b in bs:
                if isinstance(b,(B,)): ats|=bdeps(b)
            for b in st.pc:
                if b is not False: ats|=bdeps(b)
            if rnd:
                for b in list(st.inst.values()):
                    if isinstance(b,B): ats|=bdeps(b)
            by={}
            for a in ats:
                if ATOMS[a].kind=="sel": by.setdefault(ATOMS[a].name,{})[ATOMS[a].args[0].key]=ATOMS[a].args[0]
            new=False
            for f in st.arrfacts:
                js={}
                for j in (f.lo,f.hi-1): js[j.key]=j
                for nm,cf,rest in f.pats:
                    for ix in by.get(nm,{}).values():
                        d=ix-rest
                        if cf in(1,-1): j=d*cf
                        else:
                            q=s.floorvar(st,d,cf)
                            if q is None: continue
                            j=q
                        js[j.key]=j
                for jk,j in js.items():
                    key=(f.key(),jk)
                    if key in known or len(st.inst)>400: continue
                    known.add(key); st.inst[key]=f.inst(j,None); new=True
            if not new: break
    def floorvar(s,st,d,c):
        k=("floor",d.key,c)
        if c<0: d=-d; c=-c
        if all(type(x) is int and x%c==0 for x in d.n.values()): return Rat({m:x//c for m,x in d.n.items()})
        if d.isconst(): return R(int(d.const())//c)
        q=var("floor(%s/%d)"%(d,c),"I")
        b=AND(LE(q*c,d),LT(d,q*c+c))
        st.inst[k]=b
        return q
    def ipc(s,st): return st.pc+[b for b in st.inst.values() if b is not True]
    def decide(s,st,b,ms=None):
        if b is True or b is False: return b
        if not st.arrfacts and not onlyint(b): return Engine.decide(s,st,b,ms)
        if onlyint(b):      # from the conditions on integers alone
            pc=st.pc
            try:
                st.pc=[c for c in pc if c is False or onlyint(c)]
                d=Engine.decide(s,st,b,ms)
            finally: st.pc=pc
            if d is not None or s.linonly: return d
        s.sync(st,[b])
        pc=st.pc
        try:
            st.pc=s.ipc(st)
            return Engine.decide(s,st,b,ms)
        finally: st.pc=pc
    def oblige(s,st,name,goal,info=None):
        if not st.arrfacts: return Engine.oblige(s,st,name,goal,info)
        if goal is not True: s.sync(st,[goal])
        pc=st.pc
        try:
            st.pc=s.ipc(st)
            return Engine.oblige(s,st,name,goal,info)
        finally: st.pc=pc
    # -------------------------------------------------------- memory of symbolic size
    def alloc(s,st,n):
        n=s.toint(n)
        p=st.new(n,"heap","heap")
        if not isinstance(n,int):
            st.w(p.o).seq=SeqData()
        return p
    def stride(s,st,o,off):
        q=o.seq
        if q.S is None:
            if isinstance(off,int): return None
            S=stride_of(off)
            if not S: return None
            q.S=S
            # the cells written so far by constant offsets
            for a,(sz,v) in sorted(o.cells.items()): q.layers.append(("pt",R(a//S),a%S,sz,v))
            o.cells={}
        return q.S
    def inbounds(s,st,o,off,sz,what):
        b=AND(GE(off,0),LE(R(off)+sz,R(o.size)))
        if b is True: return
        if s.decide(st,b) is True: return
        Engine.oblige(s,st,"memory:%s within bounds"%what,b) if not st.arrfacts else s.oblige(st,"memory:%s within bounds"%what,b)
        st.assume(b)
    def seqload(s,st,p,o,ty,sz):
        o=st.w(p.o)
        if o.size is not None: s.inbounds(st,o,p.off,sz,"load")
        S=s.stride(st,o,p.off)
        if S is None:
            q,o.seq=o.seq,None
            try: 
                size,o.size=o.size,None
                r=s.load(st,p,ty); o.size=size
                return r
            finally: o.seq=q
        idx,c=splitoff(p.off,S)
        return s.coerce(st,s.seqget(st,o.seq,idx,c,sz),ty)
    def seqget(s,st,q,idx,c,sz):
        try: return s.seqget0(st,q,idx,c,sz)
        except NeedSplit as e:
            if s.nomerge: raise
            v=s.seqmerge(st,q,idx,c,sz)
            if v is None: raise e
            return v
    def seqmerge(s,st,q,idx,c,sz):
        """the value of an element written by one of several writes, where it is the same whichever it was"""
        idx=R(idx); at=next((m[0][0] for m,x in idx.n.items() if len(m)==1 and m[0][1]==1 and x in(1,-1) and ATOMS[m[0][0]].kind=="var"),None)
        if at is None: return None
        cases=[]; todo=[st]; s.nomerge=True
        try:
            while todo:
                if len(cases)+len(todo)>8: return None
                t=todo.pop(); s.pin=None
                try: v=s.seqget0(t,q,idx,c,sz); cases.append((s.pin,v))
                except NeedSplit as e:
                    a=t.copy(); a.assume(e.cond); b=t.copy(); b.assume(NOT(e.cond)); todo+=[a,b]
        finally: s.nomerge=False
        gen=[v for p,v in cases if p is None]
        if not gen or any(v is UNDEF or not veq(v,gen[0]) for v in gen): return None
        k=idx.n[((at,1),)]; rest=Rat({m:x for m,x in idx.n.items() if m!=((at,1),)})
        for p,v in cases:
            if p is not None and not veq(vsub(gen[0],{at:(R(p)-rest)*k}),v): return None
        return gen[0]
    def seqget0(s,st,q,idx,c,sz):
        for L in reversed(q.layers):
            if L[0]=="pt":
                _,i,lc,lsz,v=L
                if lc+lsz<=c or c+sz<=lc: continue
                b=EQ(i,idx); d=s.decide(st,b)
                if d is False: continue
                if d is None: raise NeedSplit(b)
                if lc!=c or lsz!=sz: raise Unsupported("partial element load")
                s.pin=i
                return v
            if L[0]=="map":
                _,j,i0,step,hi,alts=L        # element i0+step*j for j in [0,hi)
                cells=alts[0][1]
                if c not in cells:
                    if any(a<c+sz and c<a+z for a,z in((a,x[0]) for a,x in cells.items())): raise Unsupported("partial element load")
                    continue
                e=(idx-i0) if step==1 else (i0-idx)
                b=AND(GE(e,0),LT(e,hi)); d=s.decide(st,b)
                if d is False: continue
                if d is None: raise NeedSplit(b)
                m={atomid(j):e}; pick=None
                for cond,cl in alts[:-1]:
                    cb=substB(cond,m,st.sign); d=s.decide(st,cb)
                    if d is None: raise NeedSplit(cb)
                    if d: pick=cl; break
                if pick is None: pick=alts[-1][1]
                z,v=pick[c]
                if z!=sz: raise Unsupported("partial element load")
                return vsub(v,m,st.sign)
            if L[0]=="abs":
                _,lo,hi,cells,name=L
                if c not in cells:
                    if any(a<c+sz and c<a+z for a,z in((a,x[0]) for a,x in cells.items())): raise Unsupported("partial element load")
                    continue
                b=AND(GE(idx,lo),LT(idx,hi)); d=s.decide(st,b)
                if d is False: continue
                if d is None: raise NeedSplit(b)
                return cells[c][1] if cells[c][1] is not None else SEL("%s.%d"%(name,c),idx)
            if L[0]=="copy":
                _,lo,hi,src,sh=L
                b=AND(GE(idx,lo),LT(idx,hi)); d=s.decide(st,b)
                if d is False: continue
                if d is None: raise NeedSplit(b)
                return s.seqget(st,src,idx+sh,c,sz)
        if q.base is not None: return q.base.cell(idx,c,sz)
        if TRACE: print('UNDEFREAD',idx,c,[(L[0],str(L[1:4])[:60]) for L in q.layers][-8:],[b for b in st.pc if 'sel' not in str(b)])
        return UNDEF
    def seqstore(s,st,p,o,ty,sz,v):
        o=st.w(p.o)
        if o.size is not None: s.inbounds(st,o,p.off,sz,"store")
        S=s.stride(st,o,p.off)
        if ty.k=="int" and ty.a==1 and isinstance(v,bool): v=int(v)
        if S is None:
            s.kill(o,p.off,sz); o.cells[p.off]=(sz,v); return
        idx,c=splitoff(p.off,S)
        o.seq.layers.append(("pt",idx,c,sz,v))
    def seqcopy(s,st,d,sr,n):
        if isinstance(n,Rat) and n.isconst(): n=int(n.const())
        if isinstance(n,int) and n==0: return
        so=st.mem[sr.o]; do=st.w(d.o)
        if isinstance(n,int) and n<=64:      # one element
            S=so.seq.S if so.seq is not None else None
            if so.seq is not None and S is None: so=st.w(sr.o); S=s.stride(st,so,sr.off)
            a=0
            while a<n:
                st_,ty=8,ir.DBL
                if so.seq is None:
                    c=so.cells.get(sr.off+a)
                    if c is None: a+=1; continue
                    v=c[1]; z=c[0]
                else:
                    idx,c0=splitoff(R(sr.off)+a,S)
                    z=8; v=s.seqget(st,so.seq,idx,c0,8)
                if do.seq is not None: s.seqstore(st,Ptr(d.o,s.addoff(d.off,a)),do,ir.INT(8*z),z,v)
                else:
                    s.kill(do,d.off+a,z); do.cells[d.off+a]=(z,v)
                a+=z
            return
        if so.seq is None or do.seq is None: raise Unsupported("copy between a sequence and an object")
        so=st.w(sr.o)
        S=s.stride(st,so,sr.off) or s.stride(st,so,n)
        if do.seq.S is None:
            do.seq.S=S
            if do.cells: raise Unsupported("copy over loose cells")
        if do.seq.S!=S: raise Unsupported("copy between strides")
        i,c=splitoff(sr.off,S); k,c2=splitoff(d.off,S); m,c3=splitoff(n,S)
        if c or c2 or c3: raise Unsupported("unaligned copy")
        do.seq.layers.append(("copy",k,k+m,so.seq.clone(),i-k))
    # -------------------------------------------------------- splitting
    def step(s,st,base):
        fr=st.frames[-1]; ip=fr.ip
        try: return Engine.step(s,st,base)
        except NeedSplit as e:
            fr.ip=ip
            if s.forklog is not None: s.forklog.append(None)
            t=st.copy()
            st.assume(e.cond); t.assume(NOT(e.cond))
            return [st,t]
    def branch(s,st,cond,setter):
        if s.forklog is not None and isinstance(cond,B):
            d=s.decide(st,cond)
            if d is None or s.ctx and s.ctx[-1][0]==len(st.frames): s.forklog.append(cond)
        return Engine.branch(s,st,cond,setter)
    # -------------------------------------------------------- loops
    def enter(s,e,st,fr,lab):
        if s.ctx:
            d,H,body=s.ctx[-1]
            if len(st.frames)==d:
                k="back" if lab==H else ("exit" if lab not in body else None)
                if k:
                    f=Frame(FINISH); f.regs["o"]=Outcome(k,st,info=lab); st.frames.append(f)
                    return [st]
        L=loops_of(fr.f)
        if lab not in L: return None
        return s.trysum(st,lab,L[lab])
    def iterate(s,st,H,body):
        s.ctx.append((len(st.frames),H,body)); base=len(st.frames); work=[st]; outs=[]
        try:
            while work:
                x=work.pop()
                while True:
                    if s.deadline and time.time()>s.deadline: raise PathLimit("deadline")
                    r=s.step(x,-9)
                    if r is None: continue
                    if isinstance(r,Outcome) and r.kind=="throw":
                        u=s.unwind(r.st,base)
                        if u is not None:
                            x=r.st
                            if isinstance(u,list): work.extend(reversed(u)); break
                            continue
                    if isinstance(r,Outcome):
                        outs.append(r)
                        if len(outs)>400: raise PathLimit("more than 400 ways through a loop body")
                        break
                    work.extend(reversed(r)); break
        finally: s.ctx.pop()
        for o in outs:
            if o.kind=="back": s.dophis(o.st,o.st.frames[-1])
        return outs
    def phiregs(s,f,H): return [i.res for i in f.blocks[H] if i.op=="phi"]
    def getloc(s,st,l):
        if l[0]=="r": return st.frames[-1].regs.get(l[1],UNDEF)
        c=st.mem[l[1]].cells.get(l[2]); return c[1] if c is not None else None
    def setloc(s,st,l,v):
        if l[0]=="r": st.frames[-1].regs[l[1]]=v
        else:
            o=st.w(l[1])
            if v is None: o.cells.pop(l[2],None)
            else:
                sz=l[3]; s.kill(o,l[2],sz); o.cells[l[2]]=(sz,v)
    def diff(s,a,b,H):
        """locations of a that differ in b, and the layers added to sequences"""
        ch={}; lay={}
        for r in s.phiregs(a.frames[-1].f,H):
            if not veq(a.frames[-1].regs[r],b.frames[-1].regs[r]): ch[("r",r)]=1
        for oid,o in a.mem.items():
            p=b.mem.get(oid)
            if p is o or p is None: continue
            if o.seq is not None or p.seq is not None:
                n=len(o.seq.layers) if o.seq is not None else 0
                if len(p.seq.layers)>n: lay[oid]=p.seq.layers[n:]
                if o.seq is not None and o.seq.S is None and p.seq.S is not None: lay.setdefault(oid,[])
            for off in set(o.cells)|set(p.cells):
                x=o.cells.get(off); y=p.cells.get(off)
                if x is None and y is None: continue
                if x is not None and y is not None and x[0]==y[0] and veq(x[1],y[1]): continue
                if y is None:
                    if p.seq is not None and p.seq.S is not None: continue
                    ch[("m",oid,off,x[0])]=1; continue
                if x is not None and x[0]!=y[0]: raise Unsupported("loop changes the layout of %s"%o.name)
                ch[("m",oid,off,y[0])]=1
        return ch,lay
    def generic(s,v0,v1,nm):
        """an arbitrary value of the kind of v1 (v0 may be undefined)"""
        if isinstance(v1,B) or isinstance(v0,B) or isinstance(v1,bool): return B("bv",atom("var","%s!%d"%(nm,next(s.fresh)),(),"B"))
        if isinstance(v1,Ptr):
            if isinstance(v0,Ptr) and v0.o==v1.o:
                d=R(v1.off)-R(v0.off); S=s.cur.mem[v1.o].seq.S if v1.o in s.cur.mem and s.cur.mem[v1.o].seq is not None else None
                if S is not None: return Ptr(v1.o,s.addoff(splitoff(v1.off,S)[1],s.freshvar(nm,"I")*S))
            return UNDEF
        if isinstance(v1,int) or isinstance(v1,Rat) and isint(v1.n) and not v1.isconst() : 
            if isinstance(v0,Rat) and not isint(v0.n): return s.freshvar(nm,"R")
            return s.freshvar(nm,"I")
        if isinstance(v1,Rat): return s.freshvar(nm,"R")
        return UNDEF
    def trysum(s,st,H,body):
        st0=st.copy(); s.dophis(st0,st0.frames[-1])
        nob=len(s.obls); log,s.forklog=s.forklog,[]
        try:
            outs=s.iterate(st0.copy(),H,body); forks=s.forklog
        finally: s.forklog=log; del s.obls[nob:]
        back=[o for o in outs if o.kind=="back"]
        if not back or not any(c is not None and icond(c) for c in forks): return None
        if not TRACE: return s.summarise(st0,H,body,back)
        t=time.time(); n0=s.nq
        r=s.summarise(st0,H,body,back)
        print("%ssummary %s %s: %d ways back, %d states, %d facts, %.1fs %d queries pc %d"%("  "*len(s.ctx),st0.frames[-1].f.dem[:90],H,len(back),len(r),len(r[0].arrfacts) if r else 0,time.time()-t,s.nq-n0,len(st0.pc)),flush=True)
        return r
    def summarise(s,st0,H,body,back):
        nob=len(s.obls)
        s.cur=st0
        k=s.freshvar("k","I"); kid=atomid(k)
        locs={}; lays={}
        for o in back:
            c,l=s.diff(st0,o.st,H)
            for x in c: locs.setdefault(x,[]).append(s.getloc(o.st,x))
            lays.update(l)
        ind={}
        for l,vs in locs.items():
            d=None; v0=s.getloc(st0,l); ok=True
            for o in back:
                e=s.delta(v0,s.getloc(o.st,l))
                if e is None or d is not None and not veq(e,d): ok=False; break
                d=e
            if ok and d is not None and not veq(d,0): ind[l]=d
        layers={}      # object -> map layer
        ubs={}         # k never passes these values: 0 is not above, and no iteration starts at them
        log,s.forklog=s.forklog,None
        try:
            for rnd in range(10):
                g=st0.copy(); g.assume(GE(k,0)); gen={}
                for E in ubs.values(): g.assume(LE(k,E))
                for l in locs:
                    v0=s.getloc(st0,l)
                    if l in ind: s.setloc(g,l,s.plus(v0,R(ind[l])*k))
                    else:
                        gv=s.generic(v0,locs[l][0],"s"); gen[l]=gv; s.setloc(g,l,gv)
                for oid,(S,ly) in layers.items():
                    ob=g.w(oid)
                    if ob.seq is None: raise Unsupported("map over a plain object")
                    s.setstride(ob,S); ob.seq.layers+=ly(k)
                npc=len(g.pc)
                outs=s.iterate(g.copy(),H,body)
                bk=[o for o in outs if o.kind=="back"]
                if not bk: raise Unsupported("loop body never comes back")
                again=False; nl={}
                for o in bk:
                    c,l=s.diff(g,o.st,H)
                    for x in c:
                        if x not in locs: locs[x]=[s.getloc(o.st,x)]; again=True
                    for x in l: nl.setdefault(x,[])
                for l in list(ind):
                    vg=s.getloc(g,l)
                    for o in bk:
                        e=s.delta(vg,s.getloc(o.st,l))
                        if e is None or not veq(e,ind[l]):
                            locs[l]=[s.getloc(o.st,l)]; del ind[l]; again=True; break
                if again: continue
                if rnd<6 and s.bounds(st0,k,kid,bk,npc,ubs): continue
                if s.maplayers(g,bk,nl,k,layers,gen): continue
                break
            else: raise Unsupported("no stable summary of the loop")
        finally: s.forklog=log; del s.obls[nob:]
        # dependence on the state
        gids=set()
        for v in gen.values(): gids|=vdeps(v)
        fresh0=max([atomid(k)]+list(gids))
        def stateful(d): return any(a in gids or (a>fresh0 and ATOMS[a].kind=="var") for a in d)
        P=[]
        for o in bk:
            pcs=[c for c in o.st.pc[npc:] if c is not False]
            free=[c for c in pcs if not stateful(bdeps(c))]
            P.append((o,pcs,free))
        # what an iteration has gone through, whatever the state
        cont=self_or([p[2] for p in P])
        # accumulators and groups
        acc={}; upd={}; hav=set()
        for l,gv in gen.items():
            if gv is UNDEF: hav.add(l); continue
            posts=[s.getloc(o.st,l) for o,_,_ in P]
            if isinstance(gv,Rat) and not isint(gv.n) and isinstance(s.getloc(st0,l),(int,Rat)) and all(isinstance(x,(int,Rat)) for x in posts):
                ds=[R(x)-gv for x in posts]
                if not any(stateful(deps_of(d)) for d in ds) and any(d.n for d in ds):
                    f=s.exceptional(P,ds,k,g) or (s.merge([(AND(*fr),d) for (_,_,fr),d in zip(P,ds)],g),None,None)
                    if f[0] is not None: acc[l]=f; continue
            us=[None if veq(x,gv) else x for x in posts]
            if any(u is not None and stateful(vdeps(u)) for u in us): hav.add(l); continue
            upd[l]=us
        allp=[l for l,us in upd.items() if all(u is not None for u in us)]
        for l in allp:
            if s.getloc(st0,l) in(None,UNDEF): hav.add(l); del upd[l]
        groups={}
        for l,us in upd.items(): groups.setdefault(tuple(u is not None for u in us),[]).append(l)
        # candidate: iteration j would not update the present state
        j=s.freshvar("j","I"); jid=atomid(j)
        cand={}; variants={}
        for sgn in groups:
            if all(sgn): continue
            mine=set()
            for l in groups[sgn]: mine|=vdeps(gen[l])
            other=gids-mine
            def proj(cs,f): return [f(c) for c in cs if not isinstance(c,B) or bdeps(c).isdisjoint(other)]
            u=OR(*[AND(*P[i][1]) for i in range(len(P)) if sgn[i]]); vs=[u]
            for f in (lambda c:c),(lambda c: strict(c) if not bdeps(c).isdisjoint(mine) else c):
                w=OR(*[AND(*proj(P[i][1],f)) for i in range(len(P)) if sgn[i]])
                if isinstance(w,B) and all(x.key()!=w.key() for x in vs): vs.append(w)
            cand[sgn]=vs[0]; variants[sgn]=vs[1:]
        def subst_state(b,o,at):
            m={kid:at} if at is not None else {}
            for l,gv in gen.items():
                v=s.getloc(o.st,l) if o is not None else None
                if o is None or veq(v,gv): continue
                if v is None or v is UNDEF:
                    if not vdeps(gv).isdisjoint(bdeps(b)): return None
                    continue
                a=gv.a.id if isinstance(gv,B) else None
                if isinstance(gv,B): m[a]=v if isinstance(v,(bool,B)) else (bool(v) if isinstance(v,int) else NE(v,0))
                elif isinstance(gv,Rat): m[atomid(gv)]=R(v)
                elif isinstance(gv,Ptr):
                    if not isinstance(v,Ptr) or v.o!=gv.o: return None
                    S=g.mem[gv.o].seq.S; a=next(iter(patoms(R(gv.off).n)-{()})) ; m[a]=splitoff(v.off,S)[0]
            return substB(b,m)
        def at_state(u,t,m):
            """the condition u of an iteration in the state t"""
            for l,gv in gen.items():
                v=s.getloc(t,l)
                if v is None or v is UNDEF: continue
                if isinstance(gv,B): m[gv.a.id]=v if isinstance(v,(bool,B)) else (bool(v) if isinstance(v,int) else NE(v,0))
                elif isinstance(gv,Rat): m[atomid(gv)]=R(v)
                elif isinstance(gv,Ptr) and isinstance(v,Ptr): m[next(iter(patoms(R(gv.off).n)))]=splitoff(v.off,g.mem[gv.o].seq.S)[0]
            return substB(u,m)
        def keeps(u,o,t,at,pre):
            """u not true at the position `at` stays so over the way back o"""
            bad=subst_state(u,o,at)
            return bad is not None and s.decide(t,AND(pre,bad),1500) is False
        # does it hold for the element before the first one too, or that of the first state?
        pts={}
        def points(sg,u):
            ps={R(-1).key:R(-1)}
            for l,us in upd.items():
                v0=s.getloc(st0,l)
                for x in us:
                    if x is None: continue
                    if isinstance(x,Ptr) and isinstance(v0,Ptr) and x.o==v0.o and isinstance(R(x.off),Rat):
                        S=g.mem[x.o].seq.S if g.mem[x.o].seq is not None else None
                        if S is None: continue
                        try: a,b=splitoff(v0.off,S)[0],splitoff(x.off,S)[0]
                        except Unsupported: continue
                    elif isinstance(x,Rat) and isint(x.n) and isinstance(v0,(int,Rat)) and isint(R(v0).n): a,b=R(v0),x
                    else: continue
                    c=b-k
                    if kid in deps_of(c): continue
                    ps[(a-c).key]=a-c
            pts[sg]=[p for p in ps.values() if s.decide(st0,at_state(u,st0,{kid:p}),1500) is False]
        for sg,u in cand.items(): points(sg,u)
        while cand:
            drop=set()
            hyp=[NOT(substB(u,{kid:j})) for sg,u in cand.items()]
            ph=[NOT(substB(u,{kid:p})) for sg,u in cand.items() for p in pts[sg]]
            for o,pcs,_ in P:
                t=o.st.copy(); t.assume(GE(j,0)); t.assume(LT(j,k))
                for h in hyp+ph: t.assume(h)
                t.arrfacts=t.arrfacts+[Fact(j,0,k,cont)] if isinstance(cont,B) else t.arrfacts
                for sg,u in cand.items():
                    for p in list(pts[sg]):
                        if not keeps(u,o,t,p,True): pts[sg].remove(p); drop.add(None)
                    if sg not in drop and not (keeps(u,o,t,j,True) and keeps(u,o,t,R(k),True)): drop.add(sg)
            for sg in drop:
                if sg is None: continue
                vs=variants[sg]
                if vs: cand[sg]=vs.pop(0); points(sg,cand[sg])
                else: del cand[sg]
            if not drop: break
        s.summarised.add(st0.frames[-1].f.dem); s.nsum+=1
        # the states after k iterations
        res=[]
        gl=list(groups.items())
        opts=[]
        for sgn,ls in gl:
            ch=[None]; seen={}
            for i in range(len(P)):
                if sgn[i]:
                    key=tuple(vkey(upd[l][i]) for l in ls); seen.setdefault(key,[]).append(i)
            ch+=[tuple(v) for v in seen.values()]
            opts.append(ch)
        for combo in itertools.product(*opts):
            t=st0.copy(); t.assume(GE(k,0))
            for E in ubs.values(): t.assume(LE(k,E))
            val={}; ok=True; kk=k
            last=R(k)-1
            for (sgn,ls),ch in zip(gl,combo):
                if ch is None:
                    if all(sgn): t.assume(EQ(k,0))
                    for l in ls: val[l]=s.getloc(st0,l)
                else:
                    if all(sgn): b=last; t.assume(GE(k,1))
                    else:
                        b=s.freshvar("b","I"); t.assume(GE(b,0)); t.assume(LT(b,k))
                    m={kid:R(b)}
                    t.assume(self_or([[substB(c,m) for c in P[i][2]] for i in ch]))
                    for l in ls: val[l]=vsub(upd[l][ch[0]],m)
            if s.decide(t,LT(k,0)) is True: continue
            for l in locs:
                v0=s.getloc(st0,l)
                if l in ind: s.setloc(t,l,s.plus(v0,R(ind[l])*k))
                elif l in acc:
                    f,E,X=acc[l]; v=R(v0)+SUM(substR(f,{kid:kappa()}),0,k)
                    if E is not None:
                        at=AND(GT(k,E),GE(E,0)); d_=s.decide(t,at)
                        v=v+ITE(at if d_ is None else d_,substR(X-f,{kid:E}),RZERO)
                    s.setloc(t,l,v)
                elif l in val: s.setloc(t,l,val[l])
                else: s.setloc(t,l,s.generic(v0,locs[l][0],"h") if gen[l] is not UNDEF else UNDEF)
            for oid,(S,ly) in layers.items():
                ob=t.w(oid); s.setstride(ob,S); ob.seq.layers+=ly(k)
                if ly.facts is not None: t.arrfacts=t.arrfacts+ly.facts(k)
            if isinstance(cont,B): t.arrfacts=t.arrfacts+[Fact(j,0,k,substB(cont,{kid:j}))]
            elif cont is False: t.assume(EQ(k,0))
            for sg,u in cand.items():
                for p in pts[sg]:
                    t.assume(NOT(at_state(u,t,{kid:p})))
                nb=NOT(at_state(u,t,{kid:j}))
                if nb is True: continue
                if nb is False: t.assume(LE(k,0)); continue
                t.arrfacts=t.arrfacts+[Fact(j,0,k,nb)]
            s.sync(t,[])
            if s.quick(s.ipc(t),GE(k,0)): continue
            for o in s.iterate(t,H,body):
                if o.kind=="back": continue
                if o.kind=="exit":
                    fr=o.st.frames[-1]
                    s.solvek(o.st,k)
                    for oid in layers:
                        if oid in o.st.mem: s.absorb(o.st,oid)
                    fr=o.st.frames[-1]; fr.blk=fr.prev
                    r=s.goto(o.st,fr,o.info)
                    if r is None: res.append(o.st)
                    else: res.extend(r)
                else:
                    f=Frame(FINISH); f.regs["o"]=o; o.st.frames.append(f); res.append(o.st)
        return res
    def setstride(s,ob,S):
        if ob.seq.S is None:
            ob.seq.S=S
            for a,(sz,v) in sorted(ob.cells.items()): ob.seq.layers.append(("pt",R(a//S),a%S,sz,v))
            ob.cells={}
        elif ob.seq.S!=S: raise Unsupported("stride")
    def plus(s,v,d):
        if isinstance(v,Ptr): return Ptr(v.o,s.addoff(v.off,d if not d.isconst() else int(d.const())))
        r=R(v)+d
        return int(r.const()) if r.isconst() else r
    def delta(s,a,b):
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o: d=R(b.off)-R(a.off)
        elif isinstance(a,(int,Rat)) and isinstance(b,(int,Rat)) and not isinstance(a,bool) and not isinstance(b,bool):
            if isinstance(a,Rat) and not isint(a.n) or isinstance(b,Rat) and not isint(b.n): return None
            d=R(b)-R(a)
        else: return None
        return int(d.const()) if d.isconst() and d.const().denominator==1 else None
    def merge(s,alts,st):
        """one value from alternatives with exclusive conditions"""
        vals=alts[0][1]
        if all(veq(v,vals) for _,v in alts): return vals
        if not s.exclusive([c for c,_ in alts],st): return None
        r=alts[-1][1]
        for c,v in reversed(alts[:-1]): r=ITE(c,v,r)
        return r
    def exceptional(s,P,ds,k,g):
        """ways back that add f(k), but for those of one iteration E, which add B: (f,E,B)"""
        by={}
        for x,d in enumerate(ds): by.setdefault(d.key,[]).append(x)
        if len(by)!=2: return None
        a,b=sorted(by.values(),key=lambda w:-len(w)); kid=atomid(k)
        for main,exc in((a,b),(b,a)):
            for c in P[exc[0]][0].st.pc:
                for c in (c.a if isinstance(c,B) and c.op=="and" else (c,)):
                    if not(isinstance(c,B) and c.op in("eq","le","ne") and isint(c.a)): continue
                    cf=c.a.get(((kid,1),))
                    if cf not in(1,-1): continue
                    E=Rat({m:(-x if cf==1 else x) for m,x in c.a.items() if m!=((kid,1),)})
                    if any(ATOMS[i].kind!="var" or i>=kid for i in patoms(E.n)): continue
                    if all(s.decide(P[x][0].st,EQ(k,E)) is True for x in exc) and all(s.decide(P[x][0].st,EQ(k,E)) is False for x in main): return ds[main[0]],E,ds[exc[0]]
        return None
    def exclusive(s,cs,st):
        for x in range(len(cs)):
            for y in range(x):
                b=AND(cs[x],cs[y])
                if b is False: continue
                if b is True or s.decide(st,b,1000) is not False: return False
        return True
    def bounds(s,st0,k,kid,bk,npc,ubs):
        com=None
        for o in bk:
            c={}
            for b in o.st.pc[npc:]:
                if isinstance(b,B):
                    for x in (b.a if b.op=="and" else (b,)):
                        if x.op in("ne","le","lt") and isint(x.a): c[x.key()]=x
            com=c if com is None else {a:x for a,x in com.items() if a in c}
        new=False
        for x in com.values():
            cf=x.a.get(((kid,1),))
            if cf not in(1,-1): continue
            E=Rat({m:(-y if cf==1 else y) for m,y in x.a.items() if m!=((kid,1),)})
            if x.op!="ne":       # k < E or k <= E-1 at each iteration
                if cf!=1: continue
                if x.op=="le": E=E+1
            if E.key in ubs or any(ATOMS[a].kind!="var" or a>=kid for a in patoms(E.n)): continue
            if s.decide(st0,GE(E,0)) is True: ubs[E.key]=E; new=True
        return new
    def maplayers(s,g,bk,nl,k,layers,gen):
        """what the iteration writes into sequences; True if the generic state must be run again"""
        changed=False; kid=atomid(k)
        gids=set()
        for v in gen.values(): gids|=vdeps(v)
        for oid in set(nl)|set(layers):
            per=[]; S=None
            for o in bk:
                q=o.st.mem[oid].seq; S=q.S or S
                n0=len(g.mem[oid].seq.layers) if g.mem[oid].seq is not None else 0
                if g.mem[oid].seq is not None and g.mem[oid].seq.S is None: n0+=len(g.mem[oid].cells)
                w={}
                for L in q.layers[n0:]:
                    if L[0]!="pt": raise Unsupported("a loop that writes ranges")
                    w[(L[1].key,L[2])]=(L[1],L[2],L[3],L[4])
                per.append((w,[c for c in o.st.pc[len(g.pc):] if isinstance(c,B) and bdeps(c).isdisjoint(gids)]))
            keys=set(per[0][0])
            if any(set(w)!=keys for w,_ in per): raise Unsupported("elements written on some ways through the loop only")
            idxs={}
            for (ik,c) in keys: idxs.setdefault(ik,[]).append(c)
            if not idxs:
                if oid in layers: raise Unsupported("unstable writes")
                continue
            if len(idxs)>1:
                changed=s.abslayer(oid,S,per,idxs,k,layers,gids) or changed
                continue
            idx=next(iter(per[0][0].values()))[0]
            d=R(substR(idx,{kid:k+1})-idx)
            if not d.isconst() or d.const() not in(1,-1) : raise Unsupported("written positions")
            i0=substR(idx,{kid:R(0)}); step=int(d.const())
            alts=[]
            for w,free in per:
                cells={}
                for (_,c),(_,_,sz,v) in w.items():
                    dv=vdeps(v)
                    if not dv.isdisjoint(gids): raise Unsupported("an element written from the state of the loop")
                    cells[c]=(sz,v)
                alts.append((AND(*free),cells))
            # same values on every way: one alternative
            if all(all(veq(a[1][c][1],alts[0][1][c][1]) for c in a[1]) for a in alts): alts=[(True,alts[0][1])]
            elif not s.exclusive([c for c,_ in alts],g): raise Unsupported("ways through the loop not told apart by the elements")
            sig=(vkey(i0),step,tuple((c.key() if isinstance(c,B) else c,tuple(sorted((o2,z,vkey(v)) for o2,(z,v) in cl.items()))) for c,cl in alts))
            old=layers.get(oid)
            if old is None or old[1].sig!=sig:
                if old is not None and old[1].n>3: raise Unsupported("unstable writes")
                def mkl(hi,j=k,i0=i0,step=step,alts=alts):
                    return [("map",j,i0,step,R(hi),alts)]
                f=_Lay(mkl); f.sig=sig; f.n=(old[1].n+1) if old else 0
                layers[oid]=(S,f); changed=True
        return changed
    def abslayer(s,oid,S,per,idxs,k,layers,gids):
        """several elements written per iteration: elements of a new sequence, defined by a fact on the iterations"""
        kid=atomid(k)
        pos=[]
        for ik in idxs:
            idx=next(x[0] for kk,x in per[0][0].items() if kk[0]==ik)
            d=R(substR(idx,{kid:k+1})-idx)
            if not d.isconst() or d.const()!=len(idxs): raise Unsupported("written positions")
            pos.append((ik,substR(idx,{kid:R(0)})))
        b0=min(pos,key=lambda x:(x[1]-pos[0][1]).const() if (x[1]-pos[0][1]).isconst() else 10**9)[1]
        off={}
        for ik,i0 in pos:
            e=i0-b0
            if not e.isconst() or not 0<=e.const()<len(idxs): raise Unsupported("written positions")
            off[ik]=int(e.const())
        alts=[]
        for w,free in per:
            cells={}
            for (ik,c),(_,_,sz,v) in w.items():
                if not vdeps(v).isdisjoint(gids): raise Unsupported("an element written from the state of the loop")
                cells[(off[ik],c)]=(sz,v)
            alts.append((AND(*free),cells))
        cs={}
        for _,cl in alts:
            for (r,c),(sz,v) in cl.items():
                if cs.setdefault(c,(sz,v))[0]!=sz: raise Unsupported("partial element store")
                if not isinstance(v,(int,Rat)) or isinstance(v,bool): raise Unsupported("elements that are not numbers: %d %r"%(c,v))
        for c,(sz,v) in list(cs.items()):
            same=all(len([1 for x in cl if x[1]==c])==len(idxs) and all(veq(x[1],v) for kk,x in cl.items() if kk[1]==c) for _,cl in alts)
            if not all(len([1 for x in cl if x[1]==c])==len(idxs) for _,cl in alts): raise Unsupported("elements written in part")
            cs[c]=(sz,v if same and R(v).isconst() else None)
        sig=("abs",vkey(b0),tuple((c.key() if isinstance(c,B) else c,tuple(sorted((o2,z,vkey(v)) for o2,(z,v) in cl.items()))) for c,cl in alts))
        old=layers.get(oid)
        if old is not None and old[1].sig==sig: return False
        if old is not None and old[1].n>3: raise Unsupported("unstable writes")
        name="w!%d"%next(s.fresh); m=len(idxs)
        f=_Lay(lambda hi: [("abs",R(b0),R(b0)+R(hi)*m,cs,name)])
        def facts(hi):
            j=s.freshvar("j","I"); ds=[]
            for c,cl in alts:
                ds.append(AND(substB(c,{kid:j}) if isinstance(c,B) else c,*[EQ(SEL("%s.%d"%(name,cc),R(b0)+j*m+r),vsub(v,{kid:j})) for (r,cc),(z,v) in cl.items() if cs[cc][1] is None]))
            b=OR(*ds)
            return [Fact(j,0,hi,b)] if isinstance(b,B) else []
        f.facts=facts; f.sig=sig; f.n=(old[1].n+1) if old else 0
        layers[oid]=(S,f)
        return True
    def absorb(s,st,oid):
        """single elements written just before those of an abstract layer become elements of it"""
        q=st.mem[oid].seq
        while q is not None and q.layers and q.layers[-1][0]=="abs":
            _,lo,hi,cs,name=q.layers[-1]; got={}
            for L in reversed(q.layers[:-1]):
                if L[0]!="pt": break
                d=R(L[1])-(lo-1)
                if not d.isconst(): break
                if d.const()!=0: continue
                for c,(sz,v) in cs.items():
                    if L[2]+L[3]<=c or c+sz<=L[2]: continue
                    if c not in got: got[c]=L[4] if (L[2],L[3])==(c,sz) else None
            if len(got)!=len(cs) or not all(isinstance(v,(int,Rat)) and not isinstance(v,bool) for v in got.values()): return
            if any(v is not None and not veq(R(v),R(got[c])) for c,(z,v) in cs.items()): return
            ob=st.w(oid); ob.seq.layers[-1]=("abs",lo-1,hi,cs,name); q=ob.seq
            for c,(z,v) in cs.items():
                if v is None: st.assume(EQ(SEL("%s.%d"%(name,c),lo-1),got[c]))
    def solvek(s,st,k):
        """replace the iteration count by its value where the path determines it"""
        kid=atomid(k); cands=[]
        for c in st.pc:
            if isinstance(c,B) and c.op in("le","lt","eq") and isint(c.a):
                cf=c.a.get(((kid,1),))
                if cf in(1,-1) and all(kid not in [a for a,_ in m] for m in c.a if m!=((kid,1),)):
                    e=Rat({m:(-x if cf==1 else x) for m,x in c.a.items() if m!=((kid,1),)})
                    if c.op=="lt": e=e-cf
                    if e not in cands: cands.append(e)
        for e in cands:
            if any(ATOMS[a].kind!="var" for a in patoms(e.n)): continue
            if any(a>kid for a in patoms(e.n)): continue
            if s.decide(st,EQ(k,e)) is True:
                s.substate(st,{kid:e}); return
    def substate(s,st,m):
        cache={}
        pc=st.pc; inst=st.inst
        st.pc=[]; st.pcset=set(); st.facts={}; st.inst={}
        for c in pc: st.assume(substB(c,m) if c is not False else False)
        for key,b in inst.items():
            st.inst[key]=substB(b,m) if isinstance(b,B) else b
        for fr in st.frames:
            if fr.f is FINISH: continue
            for r,v in fr.regs.items():
                if not vdeps(v).isdisjoint(m): fr.regs[r]=vsub(v,m)
        for oid in list(st.mem):
            o=st.mem[oid]
            hit=[a for a,(z,v) in o.cells.items() if not vdeps(v).isdisjoint(m)]
            ls=o.seq is not None and o.seq.layers
            if not hit and not ls and not (isinstance(o.size,Rat)): continue
            o=st.w(oid)
            if isinstance(o.size,Rat): o.size=vsub(o.size,m)
            for a in hit: z,v=o.cells[a]; o.cells[a]=(z,vsub(v,m))
            if ls: o.seq.layers=[s.sublayer(L,m) for L in ls]
        fs=[]
        for f in st.arrfacts:
            b=substB(f.body,m)
            if b is True: continue
            fs.append(Fact(f.j,substR(f.lo,m),substR(f.hi,m),b) if b is not False else f)
        st.arrfacts=fs
    def sublayer(s,L,m):
        if L[0]=="pt": return ("pt",substR(L[1],m),L[2],L[3],vsub(L[4],m))
        if L[0]=="map":
            _,j,i0,step,hi,alts=L
            m2={a:b for a,b in m.items() if a!=atomid(j)}       # the bound position
            return ("map",j,substR(i0,m2),step,substR(hi,m),[(substB(c,m2) if isinstance(c,B) else c,{a:(z,vsub(v,m2)) for a,(z,v) in cl.items()}) for c,cl in alts])
        if L[0]=="abs": return (L[0],substR(L[1],m),substR(L[2],m),L[3],L[4])
        _,lo,hi,src,sh=L
        src=src.clone(); src.layers=[s.sublayer(x,m) for x in src.layers]
        return ("copy",substR(lo,m),substR(hi,m),src,substR(sh,m))
class _Lay:
    facts=None
    def __init__(s,f): s.f=f
    def __call__(s,hi): return s.f(hi)
def strict(b):
    """b with its inequalities on values made strict"""
    if isinstance(b,bool): return b
    if b.op in("and","or"): return (AND if b.op=="and" else OR)(*[strict(x) for x in b.a])
    if b.op=="le" and not isint(b.a): return B("lt",b.a)
    return b
def self_or(lists):
    """disjunction of conjunctions, common conjuncts factored"""
    if not lists: return False
    ks=[{c.key():c for c in l if isinstance(c,B)} for l in lists]
    if any(False in l for l in lists): ks=[k for k,l in zip(ks,lists) if False not in l]
    if not ks: return False
    com=set(ks[0])
    for k in ks[1:]: com&=set(k)
    return AND(*[ks[0][x] for x in com],OR(*[AND(*[v for x,v in k.items() if x not in com]) for k in ks]))
