"""Symbolic execution of LLVM IR over exact reals: the verification-condition generator."""
import re, time, itertools
import z3
import alg, logic, ir
from alg import *
from logic import *

FPK=("double","float","x86_fp80")
class Unsupported(Exception): pass
class PathLimit(Exception): pass

class Ptr:
    __slots__=("o","off")
    def __init__(s,o,off=0): s.o=o; s.off=off
    def __repr__(s): return "Ptr(%s,%s)"%(s.o,s.off)
    def __eq__(s,x): return isinstance(x,Ptr) and s.o==x.o and s.off==x.off
    def __hash__(s): return hash((s.o,s.off if not isinstance(s.off,Rat) else s.off.key))
class Fn:
    __slots__=("name",)
    def __init__(s,n): s.name=n
    def __eq__(s,x): return isinstance(x,Fn) and s.name==x.name
    def __hash__(s): return hash(s.name)
class Undefd:
    def __repr__(s): return "undef"
UNDEF=Undefd()

class Obj:
    __slots__=("size","cells","kind","name","owner","seq")
    def __init__(s,size,kind,name,owner): s.size=size; s.cells={}; s.kind=kind; s.name=name; s.owner=owner; s.seq=None
    def clone(s,owner):
        o=Obj(s.size,s.kind,s.name,owner); o.cells=dict(s.cells); o.seq=s.seq.clone() if s.seq is not None else None; return o
class Frame:
    __slots__=("f","blk","ip","regs","prev","res","hasinv","loopst")
    def __init__(s,f): s.f=f; s.blk=f.entry; s.ip=0; s.regs={}; s.prev=None; s.res=None; s.hasinv=None; s.loopst=None
    def copy(s):
        g=Frame.__new__(Frame); g.f=s.f; g.blk=s.blk; g.ip=s.ip; g.regs=dict(s.regs); g.prev=s.prev; g.res=s.res; g.hasinv=s.hasinv; g.loopst=s.loopst
        return g
_own=itertools.count(1)
class State:
    __slots__=("mem","frames","pc","pcset","facts","owner","nobj","trace","depth","notes","arrfacts","nblk","inst")
    def __init__(s):
        s.mem={}; s.frames=[]; s.pc=[]; s.pcset=set(); s.facts={}; s.owner=next(_own); s.nobj=1000; s.trace=[]; s.depth=0; s.notes=[]; s.arrfacts=[]; s.nblk=0; s.inst={}
    def copy(s):
        t=State.__new__(State)
        t.mem=dict(s.mem); t.frames=[f.copy() for f in s.frames]; t.pc=list(s.pc); t.pcset=set(s.pcset); t.facts=dict(s.facts)
        t.owner=next(_own); s.owner=next(_own); t.nobj=s.nobj; t.trace=list(s.trace); t.depth=s.depth; t.notes=list(s.notes); t.arrfacts=list(s.arrfacts); t.nblk=s.nblk; t.inst=dict(s.inst)
        return t
    def assume(s,b):
        if b is True: return
        if b is False: s.pc.append(False); s.pcset.add(False); return
        if b.op=="and":
            for x in b.a: s.assume(x)
            return
        k=b.key()
        if k in s.pcset: return
        s.pcset.add(k); s.pc.append(b)
        if b.op in("lt","le","eq","ne"):
            p=b.a; kp=pkey(p); kn=pkey(pneg(p))
            if b.op=="lt": s._fact(kp,"-"); s._fact(kn,"+")
            elif b.op=="le": s._fact(kp,"0-"); s._fact(kn,"0+")
            elif b.op=="ne": s._fact(kp,"n"); s._fact(kn,"n")
            elif b.op=="eq": s._fact(kp,"z"); s._fact(kn,"z")
    def _fact(s,k,v):
        o=s.facts.get(k)
        if o in("+","-","z"): return
        if o is not None and o!=v:
            st={o,v}
            if st=={"0+","n"}: v="+"
            elif st=={"0-","n"}: v="-"
            elif st=={"0+","0-"}: v="z"
            elif v in("+","-","z"): pass
            elif o=="n": pass
        s.facts[k]=v
    def sign1(s,p):
        """sign of one integer polynomial from structure and path facts"""
        sg=struct_sign(p)
        if sg in("+","-"): return sg
        q=logic._prim(p,True)
        f=s.facts.get(pkey(q))
        if f in("+","-"): return f
        return sg or (f if f in("0+","0-") else None)
    def sign(s,p):
        sg=s.sign1(p)
        if sg in("+","-"): return sg
        if is_const(p) : return sg
        l=alg._lcm_den(p)
        if l!=1: p=pscale(p,l)
        if len(p)==2:
            # a - b with a,b >= 0: compare the squares
            (m1,c1),(m2,c2)=p.items()
            if (c1>0)!=(c2>0) and any(ATOMS[a].sq is not None and e%2 for a,e in m1+m2) and struct_sign({m1:1}) in("+","0+") and struct_sign({m2:1}) in("+","0+"):
                a=pmul({m1:c1},{m1:c1}); b=pmul({m2:c2},{m2:c2})
                q=padd(a,b,-1)
                if not (len(q)==2 and q.keys()=={m1,m2}):
                    t="z" if not q else s.sign(q)
                    if t=="z": return "0+"
                    if t in("+","0+","-","0-"):
                        if c1<0: t=("-" if t[-1]=="+" else "+") if len(t)==1 else ("0-" if t[-1]=="+" else "0+")
                        return t
        if len(p)>60: return sg
        c,fs=sqf(p)
        if len(fs)==1 and fs[0][1]==1: return sg
        pos=c>0; strict=True
        for q,e in fs:
            t=s.sign1(q)
            if e%2==0:
                if t not in("+","-") and s.facts.get(pkey(q))!="n": strict=False
                continue
            if t is None: return sg
            if t in("-","0-"): pos=not pos
            if t in("0+","0-"): strict=False
        return ("+" if pos else "-") if strict else ("0+" if pos else "0-")
    def nonzero(s,p):
        if is_const(p): return cval(p)!=0
        if s.sign(p) in("+","-"): return True
        if s.facts.get(pkey(logic._prim(p,False)))=="n" or s.facts.get(pkey(logic._prim(pneg(p),True)))=="n": return True
        l=alg._lcm_den(p)
        if l!=1: p=pscale(p,l)
        if len(p)>60: return False
        c,fs=sqf(p)
        if len(fs)==1 and fs[0][1]==1: return False
        return all(s.nonzero(q) for q,e in fs)
    def w(s,oid):
        o=s.mem[oid]
        if o.owner!=s.owner:
            o=o.clone(s.owner); s.mem[oid]=o
        return o
    def new(s,size,kind,name=""):
        s.nobj+=1; o=Obj(size,kind,name,s.owner); s.mem[s.nobj]=o; return Ptr(s.nobj,0)

class Outcome:
    __slots__=("kind","st","val","info")
    def __init__(s,kind,st,val=None,info=None): s.kind=kind; s.st=st; s.val=val; s.info=info

OPAQUE=re.compile(r'basic_ostream|basic_ostringstream|basic_string\b|basic_string<|ios_base|basic_ios|basic_stringbuf|allocator<char>|std::locale|std::runtime_error|std::exception|std::logic_error|std::invalid_argument|std::to_string|std::setw|std::setprec|std::cerr|char_traits|h2d::err::')
MATH1={"sqrt","sin","cos","tan","acos","asin","atan","fabs","exp","log","floor","ceil","round","rint","nearbyint","trunc","cbrt","log2","log10","abs"}

class Obl:
    __slots__=("name","pc","goal","info","status","backend","time","model","outs","path")
    def __init__(s,name,pc,goal,info=None): s.name=name; s.pc=pc; s.goal=goal; s.info=info; s.status=None; s.backend=None; s.time=0; s.model=None; s.outs=None; s.path=None

class Engine:
    def __init__(s,mod,feas_ms=250,maxpaths=4000,deadline=None):
        s.m=mod; s.z=Z3Ctx(); s.obls=[]; s.feas_ms=feas_ms; s.contracts={}; s.maxpaths=maxpaths
        s.called=set(); s.opaque=set(); s.extern=set(); s.summ={}; s.solver_time=0; s.nq=0; s.fresh=itertools.count()
        s.deadline=deadline; s.gobj={}; s.handlers=[]; s.modelled=set(); s.checkdef=True; s.loops=None; s.steps=0
        s.seqmodel=None
        s.quickcache={}; s.linonly=False
    def freshvar(s,nm,sort="R"):
        return R(atom("var","%s!%d"%(nm,next(s.fresh)),(),sort))
    # ------------------------------------------------------------ solver access on the fly
    def relevant(s,pc,b):
        A=set(); batoms(b,A)
        _,A=s.z.closure([b])
        A=set(A)
        rest=[]
        for c in pc:
            _,ca=s.z.closure([c]) if c is not False else (None,set())
            rest.append((c,set(ca)))
        out=[]; ch=True
        A={a for a in A if ATOMS[a].kind!="const"}
        while ch:
            ch=False; nr=[]
            for c,ca in rest:
                if ca & A:
                    out.append(c); new={a for a in ca if ATOMS[a].kind!="const"}
                    if not new<=A: A|=new
                    ch=True
                else: nr.append((c,ca))
            rest=nr
        return out
    def quick(s,pc,b,ms=None):
        """True: b infeasible with pc (unsat).  False: sat or unknown"""
        if False in pc: return True
        rel=s.relevant(pc,b)
        key=(frozenset(c.key() for c in rel),b.key())
        r=s.quickcache.get(key)
        if r is not None: return r
        t=time.time()
        cs=rel+[b]
        ax,seen=s.z.closure(cs)
        zs=[s.z.b(c) for c in cs]+ax
        pure=all(ATOMS[a].sort=="R" and ATOMS[a].kind!="uf" for a in seen)
        res=z3.unknown
        try:
            so=z3.SimpleSolver(); so.set("arith.nl",False); so.set("timeout",ms or s.feas_ms); so.add(zs)
            if so.check()==z3.unsat: res=z3.unsat
            elif s.linonly and not pure: res=z3.sat
            elif pure:
                so=z3.Then("simplify","solve-eqs","qfnra-nlsat").solver()
                so.set("timeout",ms or s.feas_ms); so.add(zs); res=so.check()
            if res==z3.unknown:
                so=z3.Solver(); so.set("timeout",ms or s.feas_ms); so.add(zs); res=so.check()
        except z3.Z3Exception: res=z3.unknown
        s.solver_time+=time.time()-t; s.nq+=1
        r=(res==z3.unsat)
        s.quickcache[key]=r
        return r
    def decide(s,st,b,ms=None):
        """True/False if b is decided under the path, else None"""
        if b is True or b is False: return b
        if b.op in("lt","le","eq","ne"):
            k=b.key()
            if k in st.pcset: return True
            nb=NOT(b)
            if nb.key() in st.pcset: return False
            p=b.a
            sg=st.sign(p)
            if b.op=="lt":
                if sg=="-": return True
                if sg in("+","0+"): return False
            elif b.op=="le":
                if sg in("-","0-"): return True
                if sg=="+": return False
            elif b.op=="eq":
                if sg in("+","-"): return False
                if st.nonzero(p): return False
                if st.facts.get(pkey(p))=="z": return True
            else:
                if sg in("+","-") or st.nonzero(p): return True
                if st.facts.get(pkey(p))=="z": return False
        elif b.key() in st.pcset: return True
        elif NOT(b).key() in st.pcset: return False
        if s.quick(st.pc,b,ms): return False
        if s.quick(st.pc,NOT(b),ms): return True
        return None
    # ------------------------------------------------------------ obligations
    def oblige(s,st,name,goal,info=None):
        if goal is True:
            o=Obl(name,list(st.pc),True,info); o.status="proved"; o.backend="normalisation"; s.obls.append(o); return
        s.obls.append(Obl(name,list(st.pc),goal,info))
    def nonzero_obl(s,st,r,what):
        """r (Rat) non zero: decided, or an obligation, then assumed"""
        if st.nonzero(r.n): return
        b=cmp0("ne",r,st.sign)
        if b is True: return
        d=s.decide(st,b) if b is not False else False
        if d is True:
            st.assume(b); return
        if s.checkdef: s.oblige(st,"defined:"+what,b)
        st.assume(b)
    def nonneg_obl(s,st,r,what):
        b=cmp0("le",-r,st.sign)
        if b is True: return
        d=s.decide(st,b) if b is not False else False
        if d is True:
            st.assume(b); return
        if s.checkdef: s.oblige(st,"defined:"+what,b)
        st.assume(b)
    # ------------------------------------------------------------ values
    def val(s,st,fr,ty,v):
        k=v[0]
        if k=="r":
            return fr.regs[v[1]]
        if k=="c":
            c=v[1]
            if ty.k in FPK: return fconst(c) if isinstance(c,float) else R(c)
            return c
        if k=="g":
            return s.globalptr(st,v[1])
        if k=="u": return UNDEF
        if k=="z": return s.zero(ty)
        if k=="agg": return [s.val(st,fr,t,x) for t,x in v[1]]
        if k=="ce": return s.constexpr(st,v)
        if k=="str": return UNDEF
        raise Unsupported("value %r"%(v,))
    def zero(s,ty):
        if ty.k in FPK: return RZERO
        if ty.k=="int": return False if ty.a==1 else 0
        if ty.k=="ptr": return 0
        if ty.k=="struct": return [s.zero(t) for t in ty.a]
        if ty.k=="array": return [s.zero(ty.a[1]) for _ in range(ty.a[0])]
        raise Unsupported("zero "+repr(ty))
    def globalptr(s,st,nm):
        if nm in s.m.aliases: nm=s.m.aliases[nm]
        if nm in s.m.funcs: return Fn(nm)
        g=ir.global_init(s.m,nm)
        if g is None: return Fn(nm)
        oid=s.gobj.get(nm)
        if oid is None:
            oid=len(s.gobj)+1; s.gobj[nm]=oid
        if oid not in st.mem:
            ty,init=g
            s.m.layout(ty)
            o=Obj(ty.size,"global",nm,st.owner); st.mem[oid]=o
            if init is not None and init[0]!="str":
                s.initglobal(st,Ptr(oid,0),ty,init)
        return Ptr(oid,0)
    def initglobal(s,st,p,ty,init):
        k=init[0]
        if k=="agg":
            s.m.layout(ty)
            for i,(t,v) in enumerate(init[1]):
                off=ty.offs[i] if ty.k=="struct" else s.m.layout(ty.a[1]).size*i
                s.initglobal(st,Ptr(p.o,p.off+off),t,v)
        elif k in("str","u"): return
        elif k=="z": s.memzero(st,p,s.m.layout(ty).size)
        else:
            v=s.val(st,None,ty,init); s.store(st,p,ty,v)
    def constexpr(s,st,v):
        if v[1]=="gep": 
            ops=[(t,s.val(st,None,t,x)) for t,x in v[3]]
            return s.gep(st,v[2],ops)
        if v[1] in("bitcast","addrspacecast","ptrtoint","inttoptr"): return s.val(st,None,v[2],v[3])
        raise Unsupported("constexpr "+v[1])
    # ------------------------------------------------------------ memory
    def gep(s,st,bt,ops):
        base=ops[0][1]
        off=0
        ty=bt
        for i,(t,ix) in enumerate(ops[1:]):
            if i==0: sz=s.m.layout(ty).size
            elif ty.k=="struct":
                s.m.layout(ty); off=s.addoff(off,ty.offs[ix]); ty=ty.a[ix]; continue
            elif ty.k in("array","vec"):
                ty=ty.a[1]; sz=s.m.layout(ty).size
            else: raise Unsupported("gep into "+repr(ty))
            if isinstance(ix,B): ix=ITE(ix,1,0,"I")
            if ix is True or ix is False: ix=int(ix)
            off=s.addoff(off,ix*sz if isinstance(ix,int) else R(ix)*sz)
        if base==0 and isinstance(base,int): 
            return off if not(isinstance(off,int) and off==0) else 0
        if not isinstance(base,Ptr): raise Unsupported("gep base %r"%(base,))
        return Ptr(base.o,s.addoff(base.off,off))
    def addoff(s,a,b):
        if isinstance(a,int) and isinstance(b,int): return a+b
        r=R(a)+R(b)
        if r.isconst(): return int(r.const())
        return r
    def load(s,st,p,ty):
        if not isinstance(p,Ptr): raise Unsupported("load from %r"%(p,))
        o=st.mem.get(p.o)
        if o is None: raise Unsupported("load: dead object")
        k=ty.k
        if k in("struct","array"):
            s.m.layout(ty)
            if k=="struct": return [s.load(st,Ptr(p.o,s.addoff(p.off,of)),t) for of,t in zip(ty.offs,ty.a)]
            return [s.load(st,Ptr(p.o,s.addoff(p.off,i*ty.a[1].size)),ty.a[1]) for i in range(ty.a[0])]
        sz=s.m.layout(ty).size
        if o.seq is not None: return s.seqload(st,p,o,ty,sz)
        if not isinstance(p.off,int): raise Unsupported("symbolic offset load in %s"%o.name)
        if isinstance(o.size,int) and (p.off<0 or p.off+sz>o.size):
            s.oblige(st,"memory:load within bounds",False); raise Unsupported("out-of-bounds load %s+%d size %s"%(o.name,p.off,o.size))
        c=o.cells.get(p.off)
        if c is None and k=="ptr" and o.kind=="exc": return Ptr(p.o,0)
        if c is not None and c[0]==sz: return s.coerce(st,c[1],ty)
        if c is not None and isinstance(c[1],int) and c[0]>sz and not isinstance(c[1],bool):
            return s.coerce(st,s.wrap(c[1]&((1<<(8*sz))-1),8*sz),ty)
        # inside a larger integer cell
        for b in range(1,16):
            c=o.cells.get(p.off-b)
            if c is not None:
                if c[0]>=b+sz and isinstance(c[1],int) and not isinstance(c[1],bool):
                    u=c[1]&((1<<(8*c[0]))-1)
                    return s.coerce(st,s.wrap((u>>(8*b))&((1<<(8*sz))-1),8*sz),ty)
                break
        if k=="int":   # assemble from smaller concrete cells
            parts=[]; a=p.off; ok=True; v=0
            while a<p.off+sz:
                c=o.cells.get(a)
                if c is None or a+c[0]>p.off+sz or not isinstance(c[1],int): 
                    if c is not None and c[1] is UNDEF: v|=0; a+=c[0]; continue
                    ok=False; break
                v|=(int(c[1])&((1<<(8*c[0]))-1))<<(8*(a-p.off)); a+=c[0]
            if ok: return s.wrap(v,8*sz)
        ov=[x for x in range(p.off,p.off+sz) if x in o.cells]
        if ov: raise Unsupported("partial load %s+%d:%s cells %s"%(o.name,p.off,ty,[(x,o.cells[x]) for x in ov]))
        return UNDEF
    def wrap(s,v,bits):
        v&=(1<<bits)-1
        return v-(1<<bits) if v>>(bits-1) else v
    def coerce(s,st,v,ty):
        if ty.k in FPK:
            if isinstance(v,int) and not isinstance(v,bool):
                if v==0: return RZERO
                import struct
                return fconst(struct.unpack("<d",struct.pack("<q",v))[0])
            return v
        if ty.k=="ptr": return v
        if ty.k=="int":
            if isinstance(v,Rat) and not v.isconst() and ty.a==64 and any(ATOMS[a].sort=="R" for a in patoms(v.n)): return v # type-punned copy
            if ty.a==1 and isinstance(v,int): return bool(v&1)
            return v
        return v
    def store(s,st,p,ty,v):
        if not isinstance(p,Ptr): raise Unsupported("store to %r"%(p,))
        k=ty.k
        if k in("struct","array"):
            s.m.layout(ty)
            if v is UNDEF: return
            if k=="struct":
                for of,t,x in zip(ty.offs,ty.a,v): s.store(st,Ptr(p.o,s.addoff(p.off,of)),t,x)
            else:
                for i,x in enumerate(v): s.store(st,Ptr(p.o,s.addoff(p.off,i*ty.a[1].size)),ty.a[1],x)
            return
        sz=s.m.layout(ty).size
        o=st.mem[p.o]
        if o.seq is not None: return s.seqstore(st,p,o,ty,sz,v)
        if not isinstance(p.off,int): raise Unsupported("symbolic offset store")
        if isinstance(o.size,int) and (p.off<0 or p.off+sz>o.size):
            s.oblige(st,"memory:store within bounds",False); raise Unsupported("out-of-bounds store %s+%d size %s"%(o.name,p.off,o.size))
        o=st.w(p.o)
        s.kill(o,p.off,sz)
        if ty.k=="int" and ty.a==1 and isinstance(v,bool): v=int(v)
        o.cells[p.off]=(sz,v)
    def kill(s,o,off,sz):
        c=o.cells
        if off in c and c[off][0]==sz: return
        for b in range(1,16):
            x=c.get(off-b)
            if x is not None and x[0]>b:
                if isinstance(x[1],int) :
                    # split the integer cell
                    u=int(x[1])&((1<<(8*x[0]))-1)
                    del c[off-b]
                    for i in range(x[0]):
                        if not (off<=off-b+i<off+sz): c[off-b+i]=(1,s.wrap((u>>(8*i))&255,8))
                else: del c[off-b]
                break
        for a in range(off,off+sz):
            x=c.get(a)
            if x is not None:
                if a+x[0]>off+sz and isinstance(x[1],int):
                    u=int(x[1])&((1<<(8*x[0]))-1)
                    for i in range(off+sz-a,x[0]): c[a+i]=(1,s.wrap((u>>(8*i))&255,8))
                del c[a]
    def memzero(s,st,p,n,val=0):
        o=st.w(p.o); a=p.off; e=p.off+n
        if a==0 and isinstance(o.size,int) and n>=o.size: o.cells.clear()
        while a<e:
            sz=8 if (a%8==0 and a+8<=e) else 4 if (a%4==0 and a+4<=e) else 1
            s.kill(o,a,sz)
            b=val&255
            o.cells[a]=(sz,s.wrap(int.from_bytes(bytes([b]*sz),"little"),8*sz)); a+=sz
    def memcpy(s,st,d,sr,n):
        if not isinstance(n,int):
            return s.seqcopy(st,d,sr,n)
        if n==0: return
        so=st.mem[sr.o]; do=st.mem[d.o]
        if so.seq is not None or do.seq is not None: return s.seqcopy(st,d,sr,n)
        items=[(a-sr.off,c) for a,c in so.cells.items() if sr.off-15<=a<sr.off+n]
        fl=[]
        for a,c in items:
            if a>=0 and a+c[0]<=n: fl.append((a,c))
            elif isinstance(c[1],int):
                u=int(c[1])&((1<<(8*c[0]))-1)
                for i in range(c[0]):
                    if 0<=a+i<n: fl.append((a+i,(1,s.wrap((u>>(8*i))&255,8))))
            elif a+c[0]>0 and a<n: raise Unsupported("memcpy cuts a cell")
        o=st.w(d.o)
        if isinstance(o.size,int) and d.off+n>o.size: 
            s.oblige(st,"memory:copy within bounds",False); raise Unsupported("memcpy out of bounds")
        for a in [a for a in o.cells if d.off-15<=a<d.off+n]:
            if a in o.cells and a+o.cells[a][0]>d.off: s.kill(o,max(a,d.off),min(a+o.cells[a][0],d.off+n)-max(a,d.off)) if a<d.off or a+o.cells[a][0]>d.off+n else o.cells.pop(a)
        for a,c in fl: o.cells[d.off+a]=c
    # symbolic sequences are provided by seq.py
    def seqload(s,st,p,o,ty,sz): raise Unsupported("seq")
    def seqstore(s,st,p,o,ty,sz,v): raise Unsupported("seq")
    def seqcopy(s,st,d,sr,n): raise Unsupported("symbolic memcpy")
    # ------------------------------------------------------------ running
    def call(s,st,fname,args):
        f=ir.body(s.m.funcs[fname],s.m)
        s.called.add(fname)
        fr=Frame(f)
        for (nm,ty,at),a in zip(f.params,args): fr.regs[nm]=a
        st.frames.append(fr)
        if len(st.frames)>120: raise Unsupported("recursion depth")
    def run(s,st0,stop_depth=None):
        """explore all paths from st0 until its bottom frame returns"""
        base=len(st0.frames)-1 if stop_depth is None else stop_depth
        work=[st0]; outs=[]
        while work:
            st=work.pop()
            while True:
                if s.deadline and time.time()>s.deadline: raise PathLimit("deadline")
                r=s.step(st,base)
                if r is None: continue
                if isinstance(r,Outcome) and r.kind=="throw":
                    u=s.unwind(r.st,base)
                    if u is not None:
                        st=r.st
                        if isinstance(u,list): work.extend(reversed(u)); break
                        continue
                if isinstance(r,Outcome):
                    outs.append(r)
                    if len(outs)>s.maxpaths: raise PathLimit("more than %d paths"%s.maxpaths)
                    break
                if isinstance(r,list):
                    work.extend(reversed(r)); break
        return outs
    def unwind(s,st,base):
        """an exception leaves the current instruction: go to the next handler that catches, if any (destructors run by
        clean-up code on the way have no effect on the objects observed and are skipped)"""
        for k in range(len(st.frames)-1,base-1,-1):
            fr=st.frames[k]
            if fr.f is FINISH: continue
            ins=fr.f.blocks[fr.blk][fr.ip-1]
            ub=ins.c[1] if ins.op=="invoke" else None
            if ub is None: continue
            lp=[x for x in fr.f.blocks[ub] if x.op=="landingpad"]
            if lp and re.search(r"\bcatch\b",lp[0].txt):
                del st.frames[k+1:]
                r=s.goto(st,fr,ub)
                return True if r is None else r
        return None
    def branch(s,st,cond,setter):
        """fork on a symbolic condition. setter(state,bool)"""
        if isinstance(cond,Rat):
            cond=NE(cond,0) if not cond.isconst() else bool(cond.const())
        if cond is UNDEF:
            cond=B("bv",atom("var","undef!%d"%next(s.fresh),(),"B"))
        if isinstance(cond,int) and not isinstance(cond,bool): cond=bool(cond&1)
        if isinstance(cond,bool):
            setter(st,cond); return None
        d=s.decide(st,cond)
        if d is not None:
            st.assume(cond if d else NOT(cond))
            setter(st,d); return None
        st2=st.copy()
        st.assume(cond); setter(st,True)
        st2.assume(NOT(cond)); setter(st2,False)
        return [st,st2]
    def goto(s,st,fr,lab):
        # phi evaluation
        fr.prev=fr.blk; fr.blk=lab; fr.ip=0
        st.nblk+=1
        if s.loops is not None: 
            r=s.loops.enter(s,st,fr,lab)
            if r is not None: return r
        s.dophis(st,fr)
        return None
    def dophis(s,st,fr):
        blk=fr.f.blocks[fr.blk]
        vals=[]
        ip=0
        while blk[ip].op=="phi":
            ins=blk[ip]
            for v,l in ins.a:
                if l==fr.prev: vals.append((ins.res,s.val(st,fr,ins.ty,v))); break
            else: raise Unsupported("phi")
            ip+=1
        for r,v in vals: fr.regs[r]=v
        fr.ip=ip
    def step(s,st,base):
        fr=st.frames[-1]
        ins=fr.f.blocks[fr.blk][fr.ip]
        fr.ip+=1
        s.steps+=1
        op=ins.op
        h=getattr(s,"i_"+op,None)
        if h is not None: return h(st,fr,ins,base)
        if op in ir.BIN: return s.binop(st,fr,ins)
        if op in ir.CAST: return s.cast(st,fr,ins)
        raise Unsupported("instruction "+(ins.txt or op))
    def popret(s,st,v):
        fr=st.frames.pop()
        cal=st.frames[-1]
        if fr.res is not None: cal.regs[fr.res]=v
        if fr.hasinv: 
            return s.goto(st,cal,fr.hasinv)
        return None
    def i_ret(s,st,fr,ins,base):
        v=None if ins.a is None else s.val(st,fr,ins.ty,ins.a)
        if len(st.frames)-1==base:
            st.frames.pop()
            return Outcome("ret",st,v)
        return s.popret(st,v)
    def i_jmp(s,st,fr,ins,base): return s.goto(st,fr,ins.a)
    def i_br(s,st,fr,ins,base):
        c=s.val(st,fr,ir.INT(1),ins.a)
        res=[]
        def setter(x,t):
            r=s.goto(x,x.frames[-1],ins.b if t else ins.c)
            res.append(r)
        r=s.branch(st,c,setter)
        if any(x is not None for x in res):
            out=[]
            sts=[st] if r is None else r
            for x,y in zip(sts,res):
                if y is None: out.append(x)
                elif isinstance(y,list): out.extend(y)
                else: raise Unsupported("loop outcome")
            return out
        return r
    def i_switch(s,st,fr,ins,base):
        v=s.val(st,fr,ins.ty,ins.a)
        if isinstance(v,B): v=ITE(v,1,0,"I")
        if isinstance(v,bool): v=int(v)
        if isinstance(v,Rat) and v.isconst(): v=int(v.const())
        if isinstance(v,int):
            for c,l in ins.c:
                if s.wrap(int(c[1]),ins.ty.a)==s.wrap(v,ins.ty.a): return s.goto(st,fr,l)
            return s.goto(st,fr,ins.b)
        if v is UNDEF: raise Unsupported("switch on undef")
        out=[]; cur=st
        for c,l in ins.c:
            b=EQ(v,int(c[1])); d=s.decide(cur,b)
            if d is False: continue
            t=cur.copy(); t.assume(b); r=s.goto(t,t.frames[-1],l); out.append(t) if r is None else out.extend(r)
            if d is True: return out
            cur.assume(NOT(b))
        r=s.goto(cur,cur.frames[-1],ins.b); out.append(cur) if r is None else out.extend(r)
        return out
    def i_alloca(s,st,fr,ins,base):
        n=1
        if ins.a is not None: n=s.val(st,fr,ins.a[0],ins.a[1])
        fr.regs[ins.res]=st.new(s.m.layout(ins.ty).size*n,"stack",fr.f.dem[:40]+ins.res)
    def i_load(s,st,fr,ins,base):
        p=s.val(st,fr,ir.PTR,ins.a)
        fr.regs[ins.res]=s.load(st,p,ins.ty)
    def i_store(s,st,fr,ins,base):
        p=s.val(st,fr,ir.PTR,ins.b)
        s.store(st,p,ins.ty,s.val(st,fr,ins.ty,ins.a))
    def i_gep(s,st,fr,ins,base):
        fr.regs[ins.res]=s.gep(st,ins.ty,[(t,s.val(st,fr,t,v)) for t,v in ins.a])
    def i_freeze(s,st,fr,ins,base): fr.regs[ins.res]=s.val(st,fr,ins.ty,ins.a)
    def i_fneg(s,st,fr,ins,base):
        v=s.real(s.val(st,fr,ins.ty,ins.a)); fr.regs[ins.res]=-v
    def i_extractvalue(s,st,fr,ins,base):
        v=s.val(st,fr,ins.ty,ins.a)
        for i in ins.b: v=UNDEF if v is UNDEF else v[i]
        fr.regs[ins.res]=v
    def i_insertvalue(s,st,fr,ins,base):
        def ins_(v,ty,ix,e):
            if not ix: return e
            n=len(ty.a) if ty.k=="struct" else ty.a[0]
            l=list(v) if v is not UNDEF else [UNDEF]*n
            sub=ty.a[ix[0]] if ty.k=="struct" else ty.a[1]
            l[ix[0]]=ins_(l[ix[0]],sub,ix[1:],e); return l
        fr.regs[ins.res]=ins_(s.val(st,fr,ins.ty,ins.a),ins.ty,ins.c,s.val(st,fr,ins.b[0],ins.b[1]))
    def i_unreachable(s,st,fr,ins,base): return Outcome("unreachable",st)
    def i_resume(s,st,fr,ins,base): return Outcome("throw",st)
    def i_landingpad(s,st,fr,ins,base):
        fr.regs[ins.res]=[st.new(256,"exc"),1]
    def i_select(s,st,fr,ins,base):
        c=s.val(st,fr,ir.INT(1),ins.a); a=s.val(st,fr,ins.ty,ins.b); b=s.val(st,fr,ins.ty,ins.c)
        if c is UNDEF: c=B("bv",atom("var","undef!%d"%next(s.fresh),(),"B"))
        if isinstance(c,bool): fr.regs[ins.res]=a if c else b; return
        if not isinstance(a,(list,tuple)) and a==b and type(a)==type(b): fr.regs[ins.res]=a; return
        if ins.ty.k=="int" and ins.ty.a==1 and not (a is UNDEF or b is UNDEF):
            # logical and / or
            if a is True: fr.regs[ins.res]=OR(c,b); return
            if b is False: fr.regs[ins.res]=AND(c,a); return
            if a is False: fr.regs[ins.res]=AND(NOT(c),b); return
            if b is True: fr.regs[ins.res]=OR(NOT(c),a); return
        return s.branch(st,c,lambda x,t: x.frames[-1].regs.__setitem__(ins.res,a if t else b))
    def real(s,v):
        if v is UNDEF: return s.freshvar("undef")
        if isinstance(v,(int,bool)): return R(int(v))
        return v
    def toint(s,v):
        if isinstance(v,B): return ITE(v,1,0,"I")
        if isinstance(v,bool): return int(v)
        if isinstance(v,Rat) and v.isconst(): return int(v.const())
        return v
    def i_fcmp(s,st,fr,ins,base):
        a=s.real(s.val(st,fr,ins.ty,ins.a)); b=s.real(s.val(st,fr,ins.ty,ins.b)); p=ins.c
        for x,y,flip in ((a,b,False),(b,a,True)):
            t=s.infkind(y)
            if t:
                # comparison with an infinite / NaN constant: values are finite reals
                if t=="NAN": r=p.startswith("u") and p not in("uno",) or p=="uno"
                else:
                    inf=(t=="INF")
                    if p in("oeq","ueq"): r=False
                    elif p in("one","une"): r=True
                    elif p in("olt","ult","ole","ule"): r=inf!=flip
                    elif p in("ogt","ugt","oge","uge"): r=(not inf)!=flip
                    elif p=="ord": r=True
                    else: r=False
                if s.infkind(x) is None: fr.regs[ins.res]=r; return
        k=p[1:]
        if p=="ord" or p=="true": fr.regs[ins.res]=True; return
        if p=="uno" or p=="false": fr.regs[ins.res]=False; return
        sg=st.sign
        fr.regs[ins.res]={"lt":lambda:LT(a,b,sg),"le":lambda:LE(a,b,sg),"gt":lambda:GT(a,b,sg),"ge":lambda:GE(a,b,sg),"eq":lambda:EQ(a,b,sg),"ne":lambda:NE(a,b,sg)}[k]()
    def infkind(s,x):
        if x.d==ONE and len(x.n)==1:
            (m,c),=x.n.items()
            if len(m)==1 and ATOMS[m[0][0]].kind=="const":
                n=ATOMS[m[0][0]].name
                if n in("INF","NINF"): return n if c>0 else ("NINF" if n=="INF" else "INF")
                if n=="NAN": return n
        return None
    def i_icmp(s,st,fr,ins,base):
        a=s.val(st,fr,ins.ty,ins.a); b=s.val(st,fr,ins.ty,ins.b); p=ins.c
        fr.regs[ins.res]=s.icmp(st,a,b,p,ins.ty)
    def icmp(s,st,a,b,p,ty):
        if a is UNDEF or b is UNDEF: return B("bv",atom("var","undef!%d"%next(s.fresh),(),"B"))
        if isinstance(a,(Ptr,Fn)) or isinstance(b,(Ptr,Fn)):
            if isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.o==b.o: a,b=a.off,b.off
                else:
                    if p=="eq": return False
                    if p=="ne": return True
                    raise Unsupported("pointer order across objects")
            else:
                eq=(a==b)
                if p=="eq": return eq
                if p=="ne": return not eq
                if isinstance(a,Ptr): return {"ugt":True,"uge":True,"ult":False,"ule":False}[p]
                return {"ugt":False,"uge":False,"ult":True,"ule":True}[p]
        if isinstance(a,B) or isinstance(b,B):
            if p in("eq","ne") :
                x,y=(a,b) if isinstance(a,B) else (b,a)
                if isinstance(y,(bool,int)):
                    r=x if int(y)&1 or y==-1 else NOT(x)
                    if not isinstance(y,bool) and y not in(0,1,-1): r=False
                elif isinstance(y,B): r=IFF(x,y)
                else: r=EQ(s.toint(a),s.toint(b))
                return r if p=="eq" else NOT(r)
            a=s.toint(a); b=s.toint(b)
        a=s.toint(a); b=s.toint(b)
        if isinstance(a,int) and isinstance(b,int):
            bits=ty.a if ty.k=="int" else 64
            if p[0]=="u": a&=(1<<bits)-1; b&=(1<<bits)-1; p=p[1:]
            elif p[0]=="s": p=p[1:]
            if p in("eq","ne"): 
                e=(a-b)%(1<<bits)==0
                return e if p=="eq" else not e
            return {"lt":a<b,"le":a<=b,"gt":a>b,"ge":a>=b}[p]
        if p[0] in "us" and p not in("eq","ne"): p=p[1:]
        # a constant that is a huge unsigned value (e.g. max_size, npos) against a symbolic size
        for x,y,sw in((a,b,False),(b,a,True)):
            if isinstance(y,int) and not isinstance(x,int) and (y<-(1<<40) or y>(1<<40) or (y==-1 and p in("gt","lt","ge","le") and ins_unsigned)):
                big=True
                return {"lt":not sw,"le":not sw,"gt":sw,"ge":sw,"eq":False,"ne":True}[p]
        sg=st.sign
        return {"lt":lambda:LT(a,b,sg),"le":lambda:LE(a,b,sg),"gt":lambda:GT(a,b,sg),"ge":lambda:GE(a,b,sg),"eq":lambda:EQ(a,b,sg),"ne":lambda:NE(a,b,sg)}[p]()
    def binop(s,st,fr,ins):
        op=ins.op; ty=ins.ty
        a=s.val(st,fr,ty,ins.a); b=s.val(st,fr,ty,ins.b)
        if ty.k in FPK:
            a=s.real(a); b=s.real(b)
            if op=="fadd": r=a+b
            elif op=="fsub": r=a-b
            elif op=="fmul": r=a*b
            elif op=="fdiv":
                if is_const(b.n) and cval(b.n)==0:
                    s.oblige(st,"defined:division by zero",False); st.assume(False)
                    return Outcome("infeasible",st)
                if not b.isconst(): s.nonzero_obl(st,b,"divisor is not zero")
                r=a/b
            else: raise Unsupported(op)
            fr.regs[ins.res]=r
            return
        fr.regs[ins.res]=s.intop(st,op,a,b,ty.a)
    def intop(s,st,op,a,b,bits):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if bits==1:
            if op=="and": return AND(s.tob(a),s.tob(b))
            if op=="or": return OR(s.tob(a),s.tob(b))
            if op=="xor": return self_xor(s.tob(a),s.tob(b))
        if isinstance(a,B) or isinstance(b,B):
            x,y=(a,b) if isinstance(a,B) else (b,a)
            if op=="and" and isinstance(y,int): return x if int(y)&1 else 0
            if op=="xor" and isinstance(y,int) and int(y)==1: return NOT(x)
            if op=="or" and isinstance(y,int) and int(y)==0: return x
            if op in("and","or","xor") and isinstance(y,B):
                return {"and":AND,"or":OR,"xor":self_xor}[op](x,y)
            if op=="shl" and isinstance(a,int) is False and b==0: return a
            a=s.toint(a); b=s.toint(b)
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=="sub" and isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.o!=b.o: raise Unsupported("pointer difference across objects")
                return s.addoff(a.off,-b.off if isinstance(b.off,int) else -b.off)
            if op=="add":
                p,q=(a,b) if isinstance(a,Ptr) else (b,a)
                if isinstance(q,(int,Rat)): return Ptr(p.o,s.addoff(p.off,q))
            if op=="sub" and isinstance(a,Ptr) and isinstance(b,int): return Ptr(a.o,s.addoff(a.off,-b))
            raise Unsupported("pointer arithmetic "+op)
        a=s.toint(a); b=s.toint(b)
        if isinstance(a,int) and isinstance(b,int):
            M=(1<<bits)-1; ua=a&M; ub=b&M
            if op=="add": r=a+b
            elif op=="sub": r=a-b
            elif op=="mul": r=a*b
            elif op=="and": r=ua&ub
            elif op=="or": r=ua|ub
            elif op=="xor": r=ua^ub
            elif op=="shl": r=ua<<ub
            elif op=="lshr": r=ua>>ub
            elif op=="ashr": r=a>>ub
            elif op=="udiv": r=ua//ub
            elif op=="urem": r=ua%ub
            elif op=="sdiv": r=int(Fraction(a,b)) if b else 0
            elif op=="srem": r=a-b*int(Fraction(a,b))
            return s.wrap(r,bits)
        a=R(a); b=R(b)
        if op=="add": r=a+b
        elif op=="sub": r=a-b
        elif op=="mul": r=a*b
        elif op=="shl" and b.isconst(): r=a*(1<<int(b.const()))
        elif op in("sdiv","udiv","ashr","lshr") and b.isconst():
            c=int(b.const()) if op in("sdiv","udiv") else 1<<int(b.const())
            if all(type(x) is int and x%c==0 for x in a.n.values()) and a.d==ONE:
                r=Rat({m:x//c for m,x in a.n.items()})
            else:
                if op!="ashr" and s.decide(st,GE(a,0)) is not True: raise Unsupported("division of an integer that may be negative")
                q=s.freshvar("q","I"); rem=s.freshvar("r","I")
                st.assume(EQ(a,q*c+rem)); st.assume(LE(0,rem)); st.assume(LT(rem,c)); r=q
        elif op in("urem","srem") :
            if s.decide(st,GE(a,0)) is not True or s.decide(st,GT(b,0)) is not True: raise Unsupported("remainder of an integer that may be negative")
            q=s.freshvar("q","I"); rem=s.freshvar("r","I")
            if not b.isconst():
                # (i+1)%n style: split below
                st.assume(EQ(a,q*b+rem)); st.assume(LE(0,rem)); st.assume(LT(rem,b)); r=rem
            else:
                st.assume(EQ(a,q*b+rem)); st.assume(LE(0,rem)); st.assume(LT(rem,b)); r=rem
        elif op in("or","add") and b.isconst() and b.const()>=0 and a.d==ONE and all(type(x) is int and x%(1<<int(b.const()).bit_length())==0 for x in a.n.values()): r=a+b
        else: raise Unsupported("symbolic integer op "+op)
        if r.isconst(): return int(r.const())
        return r
    def tob(s,v):
        if isinstance(v,int): return bool(v&1)
        if isinstance(v,Rat): return NE(v,0)
        return v
    def cast(s,st,fr,ins):
        op=ins.op; ty=ins.ty; src=ins.b
        v=s.val(st,fr,src,ins.a)
        if v is UNDEF:
            fr.regs[ins.res]=UNDEF; return
        if op in("bitcast","addrspacecast","ptrtoint","inttoptr"): r=v
        elif op in("zext","sext","trunc"):
            if isinstance(v,bool): r=(-1 if op=="sext" and src.a==1 else 1) if v else 0
            elif isinstance(v,int):
                if op=="zext": r=s.wrap(v&((1<<src.a)-1),ty.a)
                elif op=="trunc": r=s.wrap(v,ty.a)
                else: r=v
            elif isinstance(v,B):
                r=v if not (op=="sext" and src.a==1 and ty.a>1) else ITE(v,-1,0,"I")
            else: r=v
            if ty.a==1 and isinstance(r,int): r=bool(r&1)
            if ty.a==1 and isinstance(r,Rat): r=NE(r,0)
        elif op=="fpext": r=s.real(v)
        elif op=="fptrunc" and ty.k!="float": r=s.real(v)
        elif op=="fptrunc":
            v=s.real(v)
            if v.isconst():
                import struct
                x=float(v.const()); y=struct.unpack("f",struct.pack("f",x))[0]
                r=v if y==x else UF("round32",v)
            else: r=UF("round32",v)
        elif op in("sitofp","uitofp"):
            v=s.toint(v); r=R(v)
        elif op in("fptosi","fptoui"):
            v=s.real(v)
            if v.isconst(): r=int(v.const())
            elif v.d==ONE and isint(v.n): r=v
            else: 
                q=s.freshvar("trunc","I")
                st.assume(OR(AND(GE(v,0),LE(q,v),LT(v,q+1)),AND(LT(v,0),GE(q,v),GT(v,q-1)))); r=q
        else: raise Unsupported(op)
        fr.regs[ins.res]=r
    # ------------------------------------------------------------ calls
    def i_invoke(s,st,fr,ins,base): return s.docall(st,fr,ins,base,ins.c[0])
    def i_call(s,st,fr,ins,base): return s.docall(st,fr,ins,base,None)
    def docall(s,st,fr,ins,base,normal):
        k=ins.a
        if k[0]=="g": name=k[1]
        else:
            v=s.val(st,fr,ir.PTR,k)
            if isinstance(v,Ptr) and v.o in st.mem and st.mem[v.o].kind=="exc":     # a virtual function of an exception object (what()): opaque
                s.opaque.add("virtual functions of exceptions"); x=None if ins.ty.k=="void" else st.new(16,"opaque") if ins.ty.k=="ptr" else UNDEF
                if ins.res is not None: fr.regs[ins.res]=x
                return s.goto(st,fr,normal) if normal else None
            if not isinstance(v,Fn): raise Unsupported("indirect call")
            name=v.name
        while name in s.m.aliases: name=s.m.aliases[name]
        args=[None if t is ir.META else s.val(st,fr,t,v) for t,v in ins.b]
        def finish(v,st=st,fr=fr):
            if ins.res is not None: fr.regs[ins.res]=v
            if normal: return s.goto(st,fr,normal)
            return None
        # intrinsics and library
        n=name[1:]
        if n.startswith("llvm."):
            r=s.intrinsic(st,n,args,ins)
            if isinstance(r,Outcome): return r
            return finish(r)
        f=s.m.funcs.get(name)
        dem=f.dem if f is not None else s.demname(name)
        c=s.contracts.get(name)
        if c is not None:
            outs=c(s,st,args)
            if outs is not None: return s.finish_outcomes(outs,ins,normal)
        for h in s.handlers:
            r=h(s,st,dem,name,args,ins)
            if r is not None:
                s.modelled.add(dem)
                if isinstance(r,Outcome): return r
                if r[0]=="val": return finish(r[1])
                if r[0]=="outs": return s.finish_outcomes(r[1],ins,normal)
        if n=="__cxa_throw":
            return s.throw(st,args)
        if n in("__cxa_allocate_exception",): return finish(st.new(256,"exc"))
        if n.startswith("_ZSt") and "__throw_" in n: return Outcome("throw",st,info=n)
        if n in("_ZSt9terminatev","__clang_call_terminate","abort"): return Outcome("abort",st,info=n)
        if n=="__assert_fail": return Outcome("abort",st,info="assert")
        if n in("__cxa_guard_acquire",): return finish(1)
        if n in("__cxa_guard_release","__cxa_free_exception","__cxa_guard_abort","__cxa_end_catch","__cxa_atexit"): return finish(0)
        if n=="__cxa_begin_catch": return finish(args[0])
        if n in("_Znwm","malloc","_Znam"):
            return finish(s.alloc(st,args[0]))
        if n in("_ZdlPv","_ZdlPvm","free","_ZdaPv","_ZdaPvm"): return finish(None)
        if n in("memmove","memcpy"):
            s.memcpy(st,args[0],args[1],args[2]); return finish(args[0])
        if f is None and n.startswith("_ZSt") and "_Rb_tree_" in n:
            r=s.rbtree(st,n,args)
            if isinstance(r,list): return s.finish_outcomes(r,ins,normal)
            return finish(r)
        if OPAQUE.search(dem):
            s.opaque.add(dem)
            rt=ins.ty
            if rt.k=="void": return finish(None)
            if "h2d::err::" in dem and rt.k=="ptr": return finish(st.new(16,"opaque"))
            if rt.k=="ptr": return finish(args[0] if args and isinstance(args[0],Ptr) else st.new(16,"opaque"))
            if rt.k=="int": return finish(B("bv",atom("var","opq!%d"%next(s.fresh),(),"B")) if rt.a==1 else s.freshvar("opq","I"))
            if rt.k in FPK: return finish(s.freshvar("opq"))
            return finish(UNDEF)
        if f is None:
            r=s.library(st,n,args,ins)
            if isinstance(r,Outcome): return r
            s.extern.add(n)
            return finish(r)
        s.call(st,name,args)
        nf=st.frames[-1]; nf.res=ins.res; nf.hasinv=normal
        return None
    def rbtree(s,st,n,args):
        """the node functions of libstdc++'s std::set and std::map (a trusted contract: the links of a binary search tree, not its balance)"""
        s.extern.add(n)
        g=lambda t,p,o: s.load(t,Ptr(p.o,s.addoff(p.off,o)),ir.PTR)
        def w(t,p,o,v): s.store(t,Ptr(p.o,s.addoff(p.off,o)),ir.PTR,v)
        PA,L,R_=8,16,24
        if "insert_and_rebalance" in n:
            left,x,p,h=args
            def ins(t,left):
                w(t,x,PA,p); w(t,x,L,0); w(t,x,R_,0); s.store(t,Ptr(x.o,x.off),ir.INT(32),1)
                if left:
                    w(t,p,L,x)
                    if p==h: w(t,h,PA,x); w(t,h,R_,x)
                    elif p==g(t,h,L): w(t,h,L,x)
                else:
                    w(t,p,R_,x)
                    if p==g(t,h,R_): w(t,h,R_,x)
            if isinstance(left,B):
                d=s.decide(st,left)
                if d is None:
                    t=st.copy(); st.assume(left); t.assume(NOT(left)); ins(st,True); ins(t,False); return [(st,None),(t,None)]
                left=d
            ins(st,bool(left)); return None
        x=args[0]; a,b=(R_,L) if "_increment" in n else (L,R_)
        if "_decrement" in n:
            q=g(st,x,PA)
            if s.load(st,Ptr(x.o,x.off),ir.INT(32))==0 and g(st,q,PA)==x: return g(st,x,R_)     # the end
        elif "_increment" not in n: raise Unsupported("external function "+n)
        y=g(st,x,a)
        if y!=0:
            while g(st,y,b)!=0: y=g(st,y,b)
            return y
        y=g(st,x,PA)
        while g(st,y,a)==x: x=y; y=g(st,y,PA)
        return y if "_decrement" in n or g(st,x,a)!=y else x
    def finish_outcomes(s,outs,ins,normal):
        """outs: list of (state,value) or Outcome for throw"""
        res=[]; final=None
        for x in outs:
            if isinstance(x,Outcome):
                res.append(x); continue
            st,v=x
            fr=st.frames[-1]
            if ins.res is not None: fr.regs[ins.res]=v
            if normal:
                g=s.goto(st,fr,normal)
                if g is not None: res.extend(g); continue
            res.append(st)
        if len(res)==1 and isinstance(res[0],Outcome): return res[0]
        if len(res)==1: return [res[0]]
        ocs=[x for x in res if isinstance(x,Outcome)]
        if ocs:
            s.pending=getattr(s,"pending",[])
            # turn outcomes into states that finish at once
            out=[]
            for x in res:
                if isinstance(x,Outcome):
                    t=x.st; fr=Frame(FINISH); fr.regs["o"]=x; t.frames.append(fr); out.append(t)
                else: out.append(x)
            return out
        return res
    def i_finish(s,st,fr,ins,base):
        o=fr.regs["o"]; st.frames.pop(); return o
    def demname(s,name):
        d=s.summ.get(name)
        if d is None:
            d=ir.demangle([name[1:].strip('"')])[name[1:].strip('"')]; s.summ[name]=d
        return d
    def alloc(s,st,n):
        n=s.toint(n)
        return st.new(n,"heap","heap")
    def throw(s,st,args):
        ti=args[1]
        # look for a catch in a calling frame that is not library code
        for i in range(len(st.frames)-1,0,-1): pass
        return Outcome("throw",st,info=getattr(ti,"name",None) or "exception")
    def intrinsic(s,st,n,args,ins):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            s.memcpy(st,args[0],args[1],s.toint(args[2])); return None
        if n.startswith("llvm.memset"):
            k=s.toint(args[2])
            if not isinstance(k,int): raise Unsupported("symbolic memset")
            if k: s.memzero(st,args[0],k,s.toint(args[1]))
            return None
        if n.startswith("llvm.fabs"): return ABS(s.real(args[0]),st.sign)
        if n.startswith("llvm.sqrt"): return s.fn_sqrt(st,s.real(args[0]))
        if n.startswith("llvm.ctlz") or n.startswith("llvm.cttz") or n.startswith("llvm.ctpop"):
            x=s.toint(args[0])
            if not isinstance(x,int): raise Unsupported("symbolic bit count")
            b=ins.ty.a; x&=(1<<b)-1
            if "ctlz" in n: return b-x.bit_length()
            if "cttz" in n: return b if x==0 else (x&-x).bit_length()-1
            return bin(x).count("1")
        if n.startswith("llvm.fmuladd"): return s.real(args[0])*s.real(args[1])+s.real(args[2])
        if n.startswith("llvm.minnum") or n.startswith("llvm.maxnum"):
            a=s.real(args[0]); b=s.real(args[1]); c=LT(a,b,st.sign)
            return ITE(c,a,b) if "minnum" in n else ITE(c,b,a)
        if n.startswith("llvm.copysign"):
            a=ABS(s.real(args[0]),st.sign); return ITE(LT(args[1],0,st.sign),-a,a)
        for k,sgn,mx in(("llvm.umin",0,0),("llvm.umax",0,1),("llvm.smin",1,0),("llvm.smax",1,1)):
            if n.startswith(k):
                a=s.toint(args[0]); b=s.toint(args[1])
                if isinstance(a,int) and isinstance(b,int):
                    bits=ins.ty.a; f=(lambda x:x) if sgn else (lambda x:x&((1<<bits)-1))
                    return max(a,b,key=f) if mx else min(a,b,key=f)
                for x,y in((a,b),(b,a)):
                    if isinstance(y,int) and y>(1<<40): return y if mx else x
                c=LT(a,b,st.sign); d=s.decide(st,c)
                if d is not None: return (b if d else a) if mx else (a if d else b)
                return ITE(c,b,a,"I") if mx else ITE(c,a,b,"I")
        if n.startswith("llvm.abs"):
            a=s.toint(args[0])
            if isinstance(a,int): return abs(a)
            return ITE(LT(a,0,st.sign),-R(a),a,"I")
        if "with.overflow" in n:
            op={"u":"","s":""}; o=n.split(".")[1]
            k=o[1:]
            r=s.intop(st,k,args[0],args[1],64)
            return [r,False]
        if n.startswith("llvm.is.fpclass"): 
            return False if args[1] in(3,0x204,516,2,1) else True
        if n.startswith("llvm.is.constant"): return False
        if n.startswith("llvm.expect"): return args[0]
        if n.startswith("llvm.floor") or n.startswith("llvm.ceil") or n.startswith("llvm.round") or n.startswith("llvm.trunc") or n.startswith("llvm.rint"):
            return s.library(st,n.split(".")[1],args,ins)
        if n.startswith("llvm.trap"): return Outcome("abort",st,info="trap")
        if n.startswith("llvm.eh.typeid"): return 1
        if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.assume") or n.startswith("llvm.experimental") or n.startswith("llvm.stack") or n.startswith("llvm.invariant"): return None
        if n.startswith("llvm.sin"): return SINCOS(s.real(args[0]),st.sign)[0]
        if n.startswith("llvm.cos"): return SINCOS(s.real(args[0]),st.sign)[1]
        raise Unsupported("intrinsic "+n)
    def fn_sqrt(s,st,x):
        if x.isconst() and x.const()<0:
            s.oblige(st,"defined:square root of a negative value",False); st.assume(False); return RZERO
        if st.sign(pmul(x.n,x.d)) not in("+","0+"): s.nonneg_obl(st,x,"square root argument is not negative")
        try: return SQRT(x,st.sign)
        except Undef:
            s.oblige(st,"defined:square root of a negative value",False); st.assume(False); return RZERO
    def library(s,st,n,args,ins):
        if n in("__cxa_pure_virtual",): return Outcome("abort",st,info=n)
        base=n
        for suf in("f","l"):
            if n.endswith(suf) and n[:-1] in MATH1|{"hypot","atan2","pow","fmod"}: base=n[:-1]
        a=[s.real(x) if isinstance(x,(Rat,Undefd)) else x for x in args]
        if base=="hypot":
            return SQRT(a[0]*a[0]+a[1]*a[1],st.sign)
        if base=="sqrt": return s.fn_sqrt(st,a[0])
        if base=="sin": return SINCOS(a[0],st.sign)[0]
        if base=="cos": return SINCOS(a[0],st.sign)[1]
        if base=="tan":
            x,y=SINCOS(a[0],st.sign); s.nonzero_obl(st,y,"tangent defined"); return x/y
        if base in("acos","asin"):
            x=a[0]
            for b,w in((LE(x,1,st.sign),"<= 1"),(GE(x,-1,st.sign),">= -1")):
                if b is True: continue
                if s.decide(st,b) is not True:
                    if s.checkdef: s.oblige(st,"defined:%s argument %s"%(base,w),b)
                st.assume(b)
            return ACOS(x,st.sign) if base=="acos" else ASIN(x,st.sign)
        if base=="atan": return ATAN(a[0],st.sign)
        if base=="atan2": return ATAN2(a[0],a[1],st.sign)
        if base=="fabs": return ABS(a[0],st.sign)
        if base=="pow" and a[1].isconst() and a[1].const().denominator==1 and 0<=a[1].const()<=8: return a[0]**int(a[1].const())
        if base=="pow" and a[1].isconst() and a[1].const()==Fraction(1,2): return s.fn_sqrt(st,a[0])
        if base in("floor","ceil","trunc","round","rint","nearbyint"):
            if a[0].isconst():
                import math
                c=a[0].const(); return R({"floor":math.floor,"ceil":math.ceil,"trunc":int,"round":lambda v:int(abs(v)+Fraction(1,2))*(1 if v>=0 else -1),"rint":round,"nearbyint":round}[base](c))
            return UF(base,a[0])
        if base in("exp","log","pow","fmod","cbrt","log2","log10"): return UF("lib_"+base,*a)
        if n in("__cxa_get_exception_ptr",): return 0
        rt=ins.ty
        raise Unsupported("external function "+n)
def self_xor(a,b):
    if isinstance(a,bool): return NOT(b) if a else b
    if isinstance(b,bool): return NOT(a) if b else a
    return NOT(IFF(a,b))
class _Fin: pass
FINISH=ir.Func(); FINISH.name="@finish"; FINISH.dem="finish"; FINISH.blocks={"%0":[ir.Instr("finish")]}; FINISH.order=["%0"]; FINISH.entry="%0"
ins_unsigned=True
