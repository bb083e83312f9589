"""Parser for the LLVM-18 textual IR produced by clang (the subset that appears)."""
import re, subprocess

TOK=re.compile(r'''\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*"|[%@][-\w.$]+)|(![\w.]*(?:\([^)]*\))?)|(\#\d+)|(-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|([\[\]{}()<>,=*:|;]))''')
def tokenize(l):
    out=[]; i=0; n=len(l)
    while i<n:
        m=TOK.match(l,i)
        if not m:
            if l[i:].strip()=="": break
            raise SyntaxError("tok: "+l[i:i+60]+" in "+l[:100])
        t=m.group(m.lastindex)
        if t==";" : break
        out.append(t); i=m.end()
    return out

class Ty:
    __slots__=("k","a","size","align","offs","name")
    # k: int(bits) float double ptr void array(n,t) struct([t]) func vec label meta x86
    def __init__(s,k,a=None): s.k=k; s.a=a; s.size=None; s.align=None; s.offs=None; s.name=None
    def __repr__(s): return "%s%s"%(s.k,s.a if s.a is not None else "")
VOID=Ty("void"); PTR=Ty("ptr"); DBL=Ty("double"); FLT=Ty("float"); X86=Ty("x86_fp80"); LABEL=Ty("label"); META=Ty("metadata")
_ints={}
def INT(n):
    if n not in _ints: _ints[n]=Ty("int",n)
    return _ints[n]

ATTRS=set("noundef nonnull noalias nocapture readonly readnone writeonly writable dead_on_unwind zeroext signext returned immarg inreg nofree swiftself swifterror nest captures dead_on_return initializes noext".split())
PATTRS=set("align dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype range nofpclass".split())

class P:
    """token stream parser"""
    def __init__(s,toks,mod): s.t=toks; s.i=0; s.m=mod
    def peek(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else None
    def nx(s): x=s.t[s.i]; s.i+=1; return x
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def need(s,x):
        y=s.nx()
        if y!=x: raise SyntaxError("expected %s got %s in %s"%(x,y," ".join(s.t)[:200]))
    def type(s):
        t=s.nx()
        if t=="void": r=VOID
        elif t=="ptr":
            r=PTR
            if s.peek()=="addrspace": s.nx(); s.need("("); s.nx(); s.need(")")
        elif t=="double": r=DBL
        elif t=="float": r=FLT
        elif t=="x86_fp80": r=X86
        elif t=="label": r=LABEL
        elif t=="metadata": r=META
        elif t=="opaque": r=Ty("struct",[])
        elif t[0]=="i" and t[1:].isdigit(): r=INT(int(t[1:]))
        elif t=="[":
            n=int(s.nx()); s.need("x"); e=s.type(); s.need("]"); r=Ty("array",(n,e))
        elif t=="<":
            if s.peek()=="{":
                s.nx(); r=s._struct(); s.need(">"); r.name="packed"
            else:
                n=int(s.nx()); s.need("x"); e=s.type(); s.need(">"); r=Ty("vec",(n,e))
        elif t=="{": r=s._struct()
        elif t[0]=="%": r=s.m.named(t)
        else: raise SyntaxError("type? "+t+" in "+" ".join(s.t)[:200])
        while s.peek()=="(":   # function type
            s.nx(); ps=[]
            while not s.eat(")"):
                if s.eat("..."): ps.append("...")
                else: ps.append(s.type()); s.attrs()
                s.eat(",")
            r=Ty("func",(r,ps))
        return r
    def _struct(s):
        fs=[]
        while not s.eat("}"):
            fs.append(s.type()); s.eat(",")
        return Ty("struct",fs)
    def attrs(s):
        out={}
        while True:
            t=s.peek()
            if t in ATTRS: s.nx(); out[t]=True
            elif t in PATTRS:
                s.nx()
                if t=="align" and s.peek()!="(": out[t]=s.nx(); continue
                if s.peek()=="(":
                    d=0; s.nx(); d=1; inner=[]
                    while d:
                        x=s.nx()
                        if x=="(": d+=1
                        elif x==")": d-=1
                        if d: inner.append(x)
                    out[t]=inner
            else: return out
    def value(s,ty):
        """operand: ('r',name) register, ('g',name) global, ('c',python) const, ('u',) undef, ('z',), ('agg',[...]), ('ce',...)"""
        t=s.nx()
        if t[0]=="%": return ("r",t)
        if t[0]=="@": return ("g",t)
        if t=="null": return ("c",0)
        if t=="true": return ("c",True)
        if t=="false": return ("c",False)
        if t in("undef","poison"): return ("u",)
        if t=="zeroinitializer": return ("z",)
        if t=="none": return ("c",0)
        if t in("[","{","<"):
            cl={"[":"]","{":"}","<":">"}[t]; vs=[]
            if t=="<" and s.peek()=="{":
                s.nx(); cl="}"
            while not s.eat(cl):
                ty2=s.type(); vs.append((ty2,s.value(ty2))); s.eat(",")
            if t=="<" and cl=="}": s.need(">")
            return ("agg",vs)
        if t[0]=="c" and len(t)>1 and t[1]=='"': return ("str",t[2:-1])
        if t in("getelementptr",):
            inb=s.eat("inbounds")
            while s.peek() in("inrange","nuw","nusw"):
                s.nx()
                if s.peek()=="(":
                    while s.nx()!=")": pass
            s.need("("); bt=s.type(); s.need(","); ops=[]
            while True:
                while s.peek()=="inrange": s.nx()
                ty2=s.type(); ops.append((ty2,s.value(ty2)))
                if s.eat(")"): break
                s.need(",")
            return ("ce","gep",bt,ops)
        if t in("ptrtoint","inttoptr","bitcast","trunc","zext","sext","addrspacecast"):
            s.need("("); ty2=s.type(); v=s.value(ty2); s.need("to"); ty3=s.type(); s.need(")")
            return ("ce",t,ty2,v,ty3)
        if t in("add","sub","mul","icmp","select","xor","and","or","shl","lshr","ashr"):
            while s.peek()!="(": s.nx()
            d=0
            while True:
                x=s.nx()
                if x=="(": d+=1
                elif x==")":
                    d-=1
                    if d==0: break
            return ("ce","?")
        if t=="blockaddress" or t=="dso_local_equivalent": raise SyntaxError(t)
        if ty.k in("double","float","x86_fp80"): return ("c",fpconst(t,ty))
        if re.match(r'-?\d+$',t): return ("c",int(t))
        if t=="c": return ("str",s.nx())
        raise SyntaxError("value? "+t+" in "+" ".join(s.t)[:300])
    def tv(s):
        ty=s.type(); at=s.attrs(); return ty,s.value(ty)
import struct
def fpconst(t,ty):
    if t.startswith("0xK"):
        h=int(t[3:],16); e=(h>>64)&0x7fff; m=h&((1<<64)-1); sg=-1 if h>>79 else 1
        from fractions import Fraction
        return sg*Fraction(m)*Fraction(2)**(e-16383-63) if m else Fraction(0)
    if t.startswith("0x"):
        return struct.unpack(">d",bytes.fromhex(t[2:].rjust(16,"0")))[0]
    return float(t)

class Instr:
    __slots__=("op","res","ty","a","b","c","txt")
    def __init__(s,op,res=None,ty=None,a=None,b=None,c=None): s.op=op; s.res=res; s.ty=ty; s.a=a; s.b=b; s.c=c; s.txt=None
    def __repr__(s): return s.txt or s.op
class Func:
    def __init__(s): s.name=None; s.params=[]; s.ret=None; s.blocks={}; s.order=[]; s.entry=None; s.dem=None; s.attr=None; s.loops=None; s.lines=None; s.sret=False
class Module:
    def __init__(s):
        s.types={}; s.funcs={}; s.globals={}; s.decl={}
        s.aliases={}
    def named(s,n):
        t=s.types.get(n)
        if t is None: t=Ty("struct",None); t.name=n; s.types[n]=t
        return t
    # layout
    def layout(s,t):
        if t.size is not None: return t
        k=t.k
        if k=="int":
            b=(t.a+7)//8
            sz=1
            while sz<b: sz*=2
            t.size=sz; t.align=min(sz,16)
        elif k=="double": t.size=t.align=8
        elif k=="float": t.size=t.align=4
        elif k=="x86_fp80": t.size=t.align=16
        elif k=="ptr": t.size=t.align=8
        elif k=="array":
            e=s.layout(t.a[1]); t.size=e.size*t.a[0]; t.align=e.align
        elif k=="vec":
            e=s.layout(t.a[1]); t.size=e.size*t.a[0]; t.align=t.size
        elif k=="struct":
            o=0; al=1; offs=[]
            packed=(t.name=="packed")
            for f in (t.a or []):
                s.layout(f); a=1 if packed else f.align
                o=(o+a-1)//a*a; offs.append(o); o+=f.size; al=max(al,a)
            t.size=(o+al-1)//al*al; t.align=al; t.offs=offs
        else: t.size=0; t.align=1
        return t

def demangle(names):
    r=subprocess.run(["c++filt"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
    return dict(zip(names,r))

def parse(text):
    m=Module()
    lines=text.split("\n"); i=0; n=len(lines)
    # types first
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm,rest=l.split(" = type ",1)
            p=P(tokenize(rest),m)
            t=m.named(nm.strip())
            u=p.type()
            t.a=u.a; t.k=u.k
            if u.name=="packed": t.name="packed"
    while i<n:
        l=lines[i]
        if l.startswith("define "):
            j=i
            while lines[j]!="}": j+=1
            f=parse_header(l,m); f.lines=lines[i+1:j]
            m.funcs[f.name]=f
            i=j+1; continue
        if l.startswith("@"):
            parse_global(l,m)
        i+=1
    names=[f[1:] for f in list(m.funcs)]
    d=demangle([x.strip('"') for x in names])
    for f in m.funcs.values(): f.dem=d[f.name[1:].strip('"')]
    return m
def parse_global(l,m):
    mm=re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$',l)
    nm,rest=mm.group(1),mm.group(2)
    ext=False
    toks=rest.split(" ")
    if " alias " in " "+rest:
        a=re.search(r'alias .*(@[-\w.$]+|@"[^"]*")$',rest)
        if a: m.aliases[nm]=a.group(1)
        return
    isext=any(t in("external","extern_weak") for t in toks[:4])
    k=None
    for w in ("global","constant"):
        if w in toks:
            x=toks.index(w); k=x if k is None else min(k,x)
    if k is None: return
    rest2=" ".join(toks[k+1:])
    m.globals[nm]=(rest2,isext,None)
def global_init(m,nm):
    r=m.globals.get(nm)
    if r is None: return None
    rest,isext,parsed=r
    if parsed is None:
        try:
            p=P(tokenize(rest),m); ty=p.type()
            init=None if isext else p.value(ty)
        except SyntaxError:
            ty=Ty("array",(64,INT(8))); init=None
        parsed=(ty,init)
        m.globals[nm]=(rest,isext,parsed)
    return parsed
LINK=set("private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr fastcc ccc coldcc".split())
def parse_header(l,m):
    p=P(tokenize(l),m); p.need("define")
    while p.peek() in LINK: p.nx()
    p.attrs()
    f=Func(); f.ret=p.type(); f.name=p.nx()
    p.need("(")
    while not p.eat(")"):
        if p.eat("..."): f.vararg=True; p.eat(","); continue
        ty=p.type(); at=p.attrs(); nm=p.nx() if p.peek() and p.peek()[0]=="%" else None
        if "sret" in at: f.sret=True
        f.params.append((nm if nm else "%%%d"%len(f.params),ty,at)); p.eat(",")
    return f
def body(f,m):
    """parse lazily"""
    if f.order: return f
    cur=None; first=True
    ls=f.lines; i=0
    while i<len(ls):
        l=ls[i]; i+=1
        if not l or l.lstrip().startswith(";"): continue
        mm=re.match(r'([-\w.$]+|"[^"]*"):',l)
        if mm and not l.startswith(" "):
            cur="%"+mm.group(1); f.blocks[cur]=[]; f.order.append(cur); continue
        if cur is None:
            # implicit entry label: number of params
            cur="%%%d"%len(f.params); f.blocks[cur]=[]; f.order.append(cur)
        s=l
        # multi-line: switch, invoke, landingpad
        st=s.strip()
        if " switch " in " "+st and st.endswith("["):
            while not ls[i].strip().startswith("]"): s+=" "+ls[i].strip(); i+=1
            s+=" ]"; i+=1
        while i<len(ls) and (ls[i].strip().startswith("to label") or re.match(r'\s+(catch|cleanup|filter)\b',ls[i])):
            s+=" "+ls[i].strip(); i+=1
        s=re.sub(r', !\w[\w.]* !\d+','',s)
        ins=parse_instr(s,m); ins.txt=s.strip()
        f.blocks[cur].append(ins)
    f.entry=f.order[0]
    return f
FLAGS=set("nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg samesign nusw volatile atomic tail musttail notail".split())
BIN=set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CAST=set("zext sext trunc fpext fptrunc sitofp uitofp fptosi fptoui ptrtoint inttoptr bitcast addrspacecast".split())
def parse_instr(s,m):
    p=P(tokenize(s),m); res=None
    if p.peek(1)=="=": res=p.nx(); p.nx()
    op=p.nx()
    while op in("tail","musttail","notail"): op=p.nx()
    while p.peek() in FLAGS: p.nx()
    if op=="ret":
        ty=p.type()
        if ty is VOID: return Instr("ret",ty=ty)
        return Instr("ret",ty=ty,a=p.value(ty))
    if op=="br":
        if p.peek()=="label":
            p.nx(); return Instr("jmp",a=p.nx())
        ty=p.type(); c=p.value(ty); p.need(","); p.nx(); t=p.nx(); p.need(","); p.nx(); e=p.nx()
        return Instr("br",a=c,b=t,c=e)
    if op=="switch":
        ty,v=p.tv(); p.need(","); p.nx(); d=p.nx(); p.need("["); cs=[]
        while not p.eat("]"):
            t2=p.type(); c=p.value(t2); p.need(","); p.nx(); cs.append((c,p.nx()))
        return Instr("switch",ty=ty,a=v,b=d,c=cs)
    if op in BIN:
        ty=p.type(); a=p.value(ty); p.need(","); b=p.value(ty); return Instr(op,res,ty,a,b)
    if op=="fneg":
        ty=p.type(); return Instr(op,res,ty,p.value(ty))
    if op in("icmp","fcmp"):
        pr=p.nx(); 
        while pr in FLAGS: pr=p.nx()
        ty=p.type(); a=p.value(ty); p.need(","); b=p.value(ty); return Instr(op,res,ty,a,b,pr)
    if op in CAST:
        ty,v=p.tv(); p.need("to"); t2=p.type(); return Instr(op,res,t2,v,ty)
    if op=="select":
        t0,c=p.tv(); p.need(","); ty,a=p.tv(); p.need(","); _,b=p.tv(); return Instr(op,res,ty,c,a,b)
    if op=="phi":
        ty=p.type(); inc=[]
        while True:
            p.need("["); v=p.value(ty); p.need(","); l=p.nx(); p.need("]"); inc.append((v,l))
            if not p.eat(","): break
        return Instr(op,res,ty,inc)
    if op=="alloca":
        ty=p.type(); cnt=None
        if p.eat(",") and p.peek()!="align": cnt=p.tv()
        return Instr(op,res,ty,cnt)
    if op=="load":
        ty=p.type(); p.need(","); t2,v=p.tv(); return Instr(op,res,ty,v)
    if op=="store":
        ty,v=p.tv(); p.need(","); t2,a=p.tv(); return Instr(op,None,ty,v,a)
    if op=="getelementptr":
        bt=p.type(); p.need(","); ops=[]
        while True:
            ops.append(p.tv())
            if not p.eat(","): break
        return Instr("gep",res,bt,ops)
    if op in("call","invoke"):
        while p.peek() in LINK or p.peek() in FLAGS: p.nx()
        p.attrs()
        ty=p.type()
        if ty.k=="func": rt=ty.a[0]
        else: rt=ty
        p.attrs()
        if p.peek()=="asm": return Instr("asm",res,rt)
        f=p.value(PTR); p.need("("); args=[]
        while not p.eat(")"):
            if p.peek()=="metadata":
                # skip metadata arg
                p.nx(); d=0
                while not (d==0 and p.peek() in(",",")")):
                    x=p.nx()
                    if x in "({[": d+=1
                    if x in ")}]": d-=1
                args.append((META,("u",)))
            else:
                t2=p.type(); at=p.attrs(); args.append((t2,p.value(t2)))
            p.eat(",")
        nb=None; ub=None
        while p.peek() is not None:
            t=p.nx()
            if t=="to": p.need("label"); nb=p.nx()
            elif t=="unwind": p.need("label"); ub=p.nx()
        return Instr(op,res,rt,f,args,(nb,ub))
    if op=="landingpad":
        ty=p.type(); return Instr(op,res,ty,s)
    if op=="resume":
        return Instr(op)
    if op=="unreachable": return Instr(op)
    if op=="extractvalue":
        ty,v=p.tv(); ix=[]
        while p.eat(","): ix.append(int(p.nx()))
        return Instr(op,res,ty,v,ix)
    if op=="insertvalue":
        ty,v=p.tv(); p.need(","); t2,e=p.tv(); ix=[]
        while p.eat(","): ix.append(int(p.nx()))
        return Instr(op,res,ty,v,(t2,e),ix)
    if op=="freeze":
        ty,v=p.tv(); return Instr(op,res,ty,v)
    if op in("extractelement","insertelement","shufflevector","atomicrmw","cmpxchg","fence","va_arg"):
        return Instr("unsupported",res,None,op)
    raise SyntaxError("instr "+s)
_ref=re.compile(r'@"[^"]*"|@[-\w.$]+')
def refs(f):
    """the global names that occur in the text of a function"""
    r=set()
    for l in f.lines or (): r.update(_ref.findall(l))
    return r
