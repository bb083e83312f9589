"""Boolean terms over canonical polynomials, and their translation to z3 / SMT-LIB."""
import z3, sys
from fractions import Fraction
import alg
from alg import *

# ---------------------------------------------------------------- boolean terms
# True | False | ('lt',p) p<0 | ('le',p) p<=0 | ('eq',p) p==0 | ('ne',p) | ('and',tuple) | ('or',tuple) | ('bv',atom) | ('nbv',atom)
class B:
    __slots__=("op","a","_h")
    def __init__(s,op,a): s.op=op; s.a=a; s._h=None
    def key(s):
        if s._h is None:
            if s.op in("lt","le","eq","ne"): s._h=(s.op,pkey(s.a))
            elif s.op in("and","or"): s._h=(s.op,frozenset(x.key() for x in s.a))
            else: s._h=(s.op,s.a.id)
        return s._h
    def __eq__(s,o): return isinstance(o,B) and s.key()==o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s):
        if s.op=="lt": return "(%s < 0)"%pstr(s.a)
        if s.op=="le": return "(%s <= 0)"%pstr(s.a)
        if s.op=="eq": return "(%s = 0)"%pstr(s.a)
        if s.op=="ne": return "(%s != 0)"%pstr(s.a)
        if s.op in("and","or"): return "("+(" %s "%s.op).join(map(repr,s.a))+")"
        return ("!" if s.op=="nbv" else "")+astr(s.a)
def AND(*xs):
    out=[]; seen=set()
    for x in xs:
        if x is True: continue
        if x is False: return False
        if x.op=="and": ys=x.a
        else: ys=(x,)
        for y in ys:
            if y.key() not in seen: seen.add(y.key()); out.append(y)
    if not out: return True
    if len(out)==1: return out[0]
    return B("and",tuple(out))
def OR(*xs):
    out=[]; seen=set()
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys=x.a if x.op=="or" else (x,)
        for y in ys:
            if y.key() not in seen: seen.add(y.key()); out.append(y)
    if not out: return False
    if len(out)==1: return out[0]
    return B("or",tuple(out))
def NOT(x):
    if x is True: return False
    if x is False: return True
    if x.op=="lt": return B("le",pneg(x.a))
    if x.op=="le": return B("lt",pneg(x.a))
    if x.op=="eq": return B("ne",x.a)
    if x.op=="ne": return B("eq",x.a)
    if x.op=="bv": return B("nbv",x.a)
    if x.op=="nbv": return B("bv",x.a)
    if x.op=="and": return OR(*[NOT(y) for y in x.a])
    if x.op=="or": return AND(*[NOT(y) for y in x.a])
def IMP(a,b): return OR(NOT(a),b)
def IFF(a,b): return AND(IMP(a,b),IMP(b,a))

def _prim(p,signed):
    """divide by the positive content; for eq also fix the sign"""
    l=alg._lcm_den(p)
    if l!=1: p=pscale(p,l)
    g=alg._content(p)
    if g!=1: p={m:c//g for m,c in p.items()}
    if not signed and p[max(p)]<0: p=pneg(p)
    return p
def _dropfactors(p,even_only):
    m=monogcd(p)
    dv={}
    for a,e in m.items():
        A=ATOMS[a]; sg=A.info and A.info.get("sign")
        if sg=="+" or (even_only is False and A.kind=="sgn"): dv[a]=e
    return divmono(p,dv) if dv else p
def isint(p):
    for a in patoms(p):
        if ATOMS[a].sort!="I": return False
    return all(type(c) is int for c in p.values())
SQCMP=[False]
def _sqmono(m):
    """m is (structurally non-negative): exactly one square root, the rest of known sign"""
    k=0
    for a,e in m:
        A=ATOMS[a]
        if A.kind=="sqrt" and e==1: k+=1
        elif not(A.info and A.info.get("sign") in("+","0+")) and e%2: return False
    return k==1
def cmp0(op,r,sign=None):
    """boolean term of  r op 0 , r a Rat whose denominator is known non-zero"""
    n,d=r.n,r.d
    if SQCMP[0] and len(n)==2 and is_const(d):
        # a - b with a, b >= 0 square roots: compare the squares
        (m1,c1),(m2,c2)=n.items()
        if (c1>0)!=(c2>0) and (_sqmono(m1) and (_sqmono(m2) or not m2) or not m1 and _sqmono(m2)):
            if (c1>0)==(cval(d)>0): pos,neg={m1:c1},{m2:c2}
            else: pos,neg={m2:c2},{m1:c1}
            n=padd(pmul(pos,pos),pmul(neg,neg),-1); d=ONE
            r=Rat(n)
    if op in("eq","ne"):
        if is_const(n):
            z=(cval(n)==0); return z if op=="eq" else not z
        p=_prim(_dropfactors(n,False),False)
        if is_const(p): return (cval(p)==0)==(op=="eq")
        if sign:
            sg=sign(p)
            if sg in("+","-"): return op=="ne"
        return B(op,p)
    if is_const(n) and is_const(d):
        v=Fraction(cval(n))/cval(d)
        return v<0 if op=="lt" else v<=0
    if not is_const(d):
        sg=(sign or struct_sign)(d)
        if sg in("+","0+"): pass
        elif sg in("-","0-"): n=pneg(n)
        else: n=pmul(n,d)
    elif cval(d)<0: n=pneg(n)
    p=_prim(_dropfactors(n,True),True)
    if is_const(p):
        v=cval(p); return v<0 if op=="lt" else v<=0
    sg=(sign or struct_sign)(p)
    if op=="lt":
        if sg in("+","0+"): return False
        if sg=="-": return True
        if isint(p): # p<0 <=> p+1<=0
            return B("le",padd(p,ONE))
    else:
        if sg=="+": return False
        if sg in("-","0-"): return True
        if sg=="0+": return B("eq",_prim(p,False))
    return B(op,p)
def LT(a,b,sign=None): return cmp0("lt",R(a)-R(b),sign)
def LE(a,b,sign=None): return cmp0("le",R(a)-R(b),sign)
def GT(a,b,sign=None): return LT(b,a,sign)
def GE(a,b,sign=None): return LE(b,a,sign)
def EQ(a,b,sign=None): return cmp0("eq",R(a)-R(b),sign)
def NE(a,b,sign=None): return cmp0("ne",R(a)-R(b),sign)

def batoms(b,out):
    if b is True or b is False: return
    if b.op in("and","or"):
        for x in b.a: batoms(x,out)
    elif b.op in("bv","nbv"): out.add(b.a.id)
    else: out|=patoms(b.a)

# ---------------------------------------------------------------- constructors of defined atoms
def sgn_info(a,s): a.info={"sign":s}; return a
def mk_abs_poly(p,sign):
    """|p| for an integer polynomial"""
    if is_const(p): return R(abs(cval(p)))
    sg=(sign or struct_sign)(p)
    if sg in("+","0+"): return Rat(p)
    if sg in("-","0-"): return Rat(pneg(p))
    l=alg._lcm_den(p)
    f=Fraction(1,l)
    if l!=1: p=pscale(p,l)
    c,fs=sqf(p)
    r=R(abs(c)*f)
    for q,e in fs:
        if e%2==0:
            r=r*Rat(q)**e; continue
        if len(q)==1 and ATOMS[next(iter(q))[0][0]].kind=="sgn" and next(iter(q))[0][1]==1 and len(next(iter(q)))==1 and abs(next(iter(q.values())))==1: continue
        sg=(sign or struct_sign)(q)
        if sg in("+","0+"): t=Rat(q)
        elif sg in("-","0-"): t=Rat(pneg(q))
        else:
            if q[max(q)]<0: q=pneg(q)
            a=atom("abs","",(Rat(q),))
            if a.sq is None: a.sq=pmul(q,q); a.info={"sign":"0+"}
            t=R(a)
        r=r*t**e
    return r
def ABS(x,sign=None):
    x=R(x)
    if x.isconst(): return R(abs(x.const()))
    n=mk_abs_poly(x.n,sign); d=mk_abs_poly(x.d,sign)
    return n/d
def SQRT(x,sign=None):
    """square root of x (x>=0 is an obligation elsewhere)"""
    x=R(x)
    if not x.n: return RZERO
    p=pmul(x.n,x.d)
    l=alg._lcm_den(p)
    if l!=1: p=pscale(p,l)    # sqrt(p/l)/|d|
    dabs=mk_abs_poly(x.d,sign)
    c,fs=sqf(p)
    cc=c*l                    # sqrt(c/l)=sqrt(c*l)/l
    neg=cc<0
    a,b=split_square(abs(cc))
    out=R(Fraction(a,l))
    rem={():-b if neg else b}
    for q,e in fs:
        if e//2:
            h=mk_abs_poly(q,sign)
            out=out*h**(e//2)
        if e%2:
            if len(q)<=80 and not is_const(q) and pdeg(q)>2:
                fl=factors(q)
                if len(fl)>1:
                    for f in fl:
                        nn=struct_sign(f) in("+","0+") or ("sqrt","",(Rat(f),)) in alg._AK
                        if nn: out=out*R(sqrt_atom(f,sign))
                        else: rem=pmul(rem,f)
                    continue
            rem=pmul(rem,q)
    if is_const(rem) and cval(rem)==1: return out/dabs
    # a square root of a product containing sqrt atoms etc. stays one atom
    if is_const(rem) and cval(rem)<0: raise Undef("sqrt of negative")
    return out*R(sqrt_atom(rem,sign))/dabs
def sqrt_atom(rem,sign=None):
    at=atom("sqrt","",(Rat(rem),))
    if at.sq is None:
        at.sq=rem
        sg=(sign or struct_sign)(rem)
        at.info={"sign":"+" if sg=="+" else "0+"}
    return at
_faccache={}
def factors(q):
    """irreducible factors of a square-free primitive integer polynomial, each with positive leading coefficient where the
    product of the signs is kept on the first"""
    k=pkey(q)
    r=_faccache.get(k)
    if r is None:
        ids=tuple(sorted(patoms(q)))
        try:
            c,l=tosym(q,ids).factor_list()
            r=[fromsym(f,ids) for f,e in l]
            if any(e!=1 for _,e in l) or int(c) not in(1,-1): r=[q]
            else:
                # orient: factors that are structurally negative are flipped
                c=int(c)
                for j,f in enumerate(r):
                    if struct_sign(f) in("-","0-") or (("sqrt","",(Rat(pneg(f)),)) in alg._AK): r[j]=pneg(f); c=-c
                if c<0: 
                    for j,f in enumerate(r):
                        if struct_sign(f) is None and ("sqrt","",(Rat(f),)) not in alg._AK: r[j]=pneg(f); break
                    else: r=[q]
        except Exception: r=[q]
        _faccache[k]=r
    return r

def lin_pi(x):
    """x = q*pi ?"""
    if x.d!=ONE: return None
    if not x.n: return Fraction(0)
    if len(x.n)==1:
        (m,c),=x.n.items()
        if len(m)==1 and m[0][1]==1 and ATOMS[m[0][0]].kind=="const" and ATOMS[m[0][0]].name==PI_NAME: return Fraction(c)
    return None
def SINCOS(x,sign=None):
    """(sin x, cos x)"""
    x=R(x)
    if not x.n: return RZERO,RONE
    q=lin_pi(x)
    if q is not None:
        q=q%2
        S={Fraction(0):(0,1),Fraction(1,2):(1,0),Fraction(1):(0,-1),Fraction(3,2):(-1,0)}
        if q in S: return R(S[q][0]),R(S[q][1])
        for k,(s2,c2) in {Fraction(1,4):("2","2"),Fraction(1,3):("3","1"),Fraction(1,6):("1","3")}.items():
            base={Fraction(1,4):(SQRT(2)/2,SQRT(2)/2),Fraction(1,3):(SQRT(3)/2,R(Fraction(1,2))),Fraction(1,6):(R(Fraction(1,2)),SQRT(3)/2)}[k]
            s,c=base
            if q==k: return s,c
            if q==1-k: return s,-c
            if q==1+k: return -s,-c
            if q==2-k: return -s,c
    if x.d==ONE and len(x.n)>1:
        it=list(x.n.items())
        # angle addition over the terms
        a=Rat({it[0][0]:it[0][1]}); b=Rat(dict(it[1:]))
        s1,c1=SINCOS(a,sign); s2,c2=SINCOS(b,sign)
        return s1*c2+c1*s2, c1*c2-s1*s2
    neg=False
    if x.n[max(x.n)]<0: x=-x; neg=True
    if x.d==ONE and len(x.n)==1:
        (m,c),=x.n.items()
        if len(m)==1 and m[0][1]==1:
            A=ATOMS[m[0][0]]
            if A.info and "sincos" in A.info and type(c) is int and 1<=c<=4:
                s1,c1=A.info["sincos"]
                s,cc=s1,c1
                for _ in range(c-1): s,cc=s*c1+cc*s1, cc*c1-s*s1
                return (-s if neg else s),cc
        if type(c) is int and 2<=c<=4:
            s1,c1=SINCOS(Rat({m:1}),sign)
            s,cc=s1,c1
            for _ in range(c-1): s,cc=s*c1+cc*s1, cc*c1-s*s1
            return (-s if neg else s),cc
    s=atom("sin","",(x,)); c=atom("cos","",(x,))
    if c.sq is None: c.sq=padd(ONE,praw_mul(pvar(s),pvar(s)),-1)
    s=R(s)
    return (-s if neg else s),R(c)
def ACOS(x,sign=None):
    x=R(x)
    if x==RONE: return RZERO
    if not x.n: return pi()/2
    if x==-RONE: return pi()
    a=atom("acos","",(x,))
    if a.info is None:
        n=Rat(x.n); d=Rat(x.d)
        a.info={"sign":"0+","sincos":(SQRT(d*d-n*n,sign)/ABS(d,sign),x)}
    return R(a)
def ASIN(x,sign=None):
    x=R(x)
    if not x.n: return RZERO
    a=atom("asin","",(x,))
    if a.info is None: a.info={"sincos":(x,SQRT(1-x*x,sign))}
    return R(a)
def ATAN(x,sign=None):
    x=R(x)
    if not x.n: return RZERO
    a=atom("atan","",(x,))
    if a.info is None:
        h=SQRT(1+x*x,sign); a.info={"sincos":(x/h,1/h)}
    return R(a)
def ATAN2(y,x,sign=None):
    y=R(y); x=R(x)
    a=atom("atan2","",(y,x))
    if a.info is None:
        h=SQRT(x*x+y*y,sign); a.info={"sincos":(y/h,x/h)}
    return R(a)
def ITE(c,x,y,sort="R"):
    if c is True: return x
    if c is False: return y
    x=R(x); y=R(y)
    if x==y: return x
    a=atom("ite","",(c,x,y),sort)
    if sort=="R" and a.sq is None and x==-y and x*x==R(1): a.sq=ONE        # a sign
    return R(a)
def UF(name,*args,sort="R"):
    return R(atom("uf",name,tuple(R(a) for a in args),sort))

def SEL(name,idx):
    """element of a sequence of any length"""
    return R(atom("sel",name,(R(idx),),"R"))
KAPPA="kappa"
def kappa(): return var(KAPPA,"I")
def SUM(f,lo,hi):
    """sum of f(kappa), kappa from lo to hi-1, as the difference of an antiderivative (so SUM(lo,hi)+SUM(hi,m)=SUM(lo,m) always)"""
    lo=R(lo); hi=R(hi); f=R(f); kid=next(iter(patoms(kappa().n)))
    if (f.d==ONE or kid not in _pdeps(f.d)) and len(f.n)>1:     # one product of elements at a time, each with its own offset
        g={}
        for m,c in f.n.items():
            ou=tuple((a,x) for a,x in m if kid not in adeps(a)); inn=tuple((a,x) for a,x in m if kid in adeps(a))
            g.setdefault(inn,{})[ou]=c
        if len(g)>1:
            out=RZERO
            for inn,k in g.items(): out=out+Rat(k)*SUM(Rat({inn:1}),lo,hi)
            return out/Rat(f.d)
    sh=None         # the least offset of an element is 0
    for a in deps_of(f):
        A=ATOMS[a]
        if A.kind=="sel" and kid in adeps(a):
            ix=A.args[0]; cf=ix.n.get(((kid,1),)); c=ix.n.get((),0)
            if ix.d==ONE and type(cf) is int and cf>0 and type(c) is int: sh=c//cf if sh is None else min(sh,c//cf)
    if sh:
        f=substR(f,{kid:kappa()-sh}); lo=lo+sh; hi=hi+sh
    def upto(e):
        c=cval({():e.n[()]}) if () in e.n else 0
        assert e.d==ONE and type(c) is int
        base=Rat({m:x for m,x in e.n.items() if m})
        r=RZERO if not base.n else fold(f,base)
        if c>=0:
            for i in range(c): r=r+substR(f,{kid:base+i})
        else:
            for i in range(-c): r=r-substR(f,{kid:base-1-i})
        return r
    def fold(f,e):
        if kid not in deps_of(f): return f*e
        out=RZERO
        if f.d==ONE or kid not in _pdeps(f.d):
            for m,c in f.n.items():
                ou=[(a,x) for a,x in m if kid not in adeps(a)]; inn=tuple((a,x) for a,x in m if kid in adeps(a))
                k=Rat({tuple(ou):c})
                if not inn: out=out+k*e
                else: out=out+k*R(atom("sum","",(Rat({inn:1}),e)))
            return out/Rat(f.d)
        return R(atom("sum","",(f,e)))
    return upto(hi)-upto(lo)
# ---------------------------------------------------------------- substitution and dependencies
_adeps={}
def adeps(i):
    """ids of the atoms an atom is made of (itself included)"""
    r=_adeps.get(i)
    if r is None:
        A=ATOMS[i]; r={i}
        for x in A.args:
            if isinstance(x,Rat): r|=_pdeps(x.n)|_pdeps(x.d)
            elif isinstance(x,B): r|=bdeps(x)
        if A.kind=="sum": r.discard(next(iter(patoms(kappa().n))))
        r=frozenset(r); _adeps[i]=r
    return r
def _pdeps(p):
    r=set()
    for a in patoms(p): r|=adeps(a)
    return r
def deps_of(v):
    if isinstance(v,Rat): return _pdeps(v.n)|_pdeps(v.d)
    if isinstance(v,B): return bdeps(v)
    return set()
def bdeps(b):
    if b is True or b is False: return set()
    if b.op in("and","or"):
        r=set()
        for x in b.a: r|=bdeps(x)
        return r
    if b.op in("bv","nbv"): return set(adeps(b.a.id))
    return _pdeps(b.a)
class NoSubst(Exception): pass
def substR(r,m,sign=None,cache=None):
    """replace atoms: m maps atom ids to Rat (or B for boolean atoms)"""
    if cache is None: cache={}
    n=_substp(r.n,m,sign,cache)
    return n if r.d==ONE else n/_substp(r.d,m,sign,cache)
def _substp(p,m,sign,cache):
    aff={a for a in patoms(p) if not adeps(a).isdisjoint(m)}
    if not aff: return Rat(p)
    keep={}; out=RZERO
    for mo,c in p.items():
        if not any(a in aff for a,_ in mo): keep[mo]=c; continue
        t=Rat({tuple(x for x in mo if x[0] not in aff):c})
        for a,e in mo:
            if a in aff: t=t*substA(a,m,sign,cache)**e
        out=out+t
    return out+Rat(keep) if keep else out
def substA(i,m,sign,cache):
    r=cache.get(i)
    if r is not None: return r
    A=ATOMS[i]
    if i in m: r=m[i]
    elif adeps(i).isdisjoint(m): r=R(A)
    else:
        k=A.kind; S=lambda x: substR(x,m,sign,cache)
        if k=="sel": r=SEL(A.name,S(A.args[0]))
        elif k=="sqrt": r=SQRT(S(A.args[0]),sign)
        elif k=="abs": r=ABS(S(A.args[0]),sign)
        elif k=="sin": r=SINCOS(S(A.args[0]),sign)[0]
        elif k=="cos": r=SINCOS(S(A.args[0]),sign)[1]
        elif k=="acos": r=ACOS(S(A.args[0]),sign)
        elif k=="asin": r=ASIN(S(A.args[0]),sign)
        elif k=="atan": r=ATAN(S(A.args[0]),sign)
        elif k=="atan2": r=ATAN2(S(A.args[0]),S(A.args[1]),sign)
        elif k=="ite": r=ITE(substB(A.args[0],m,sign,cache),S(A.args[1]),S(A.args[2]),A.sort)
        elif k=="uf": r=UF(A.name,*[S(x) for x in A.args],sort=A.sort)
        elif k=="sum": 
            kid=next(iter(patoms(kappa().n)))
            r=SUM(substR(A.args[0],{x:y for x,y in m.items() if x!=kid},sign),0,S(A.args[1]))
        else: raise NoSubst(k)
    cache[i]=r
    return r
def substB(b,m,sign=None,cache=None):
    if cache is None: cache={}
    if b is True or b is False: return b
    if b.op=="and": return AND(*[substB(x,m,sign,cache) for x in b.a])
    if b.op=="or": return OR(*[substB(x,m,sign,cache) for x in b.a])
    if b.op in("bv","nbv"):
        if b.a.id in m:
            r=m[b.a.id]
            if isinstance(r,Rat): r=NE(r,0)
            return r if b.op=="bv" else NOT(r)
        return b
    if _pdeps(b.a).isdisjoint(m): return b
    return cmp0(b.op,_substp(b.a,m,sign,cache),sign)
# ---------------------------------------------------------------- z3
PI_LO=Fraction(31415926535897932384,10**19); PI_HI=Fraction(31415926535897932385,10**19)
def sumsq(A):
    """a root of a sum of squares of linear forms of elements of containers: the forms (each at most the root)"""
    r=A.info.get("sumsq")
    if r is not None: return r
    p=A.sq; comp={}; ok=any(ATOMS[a].kind=="sel" for a in patoms(p)) and all(sum(e for _,e in m)==2 for m in p)
    if ok:
        for m in p:
            g=set(a for a,_ in m)
            for a in list(g): g|=comp.get(a,set())
            for a in g: comp[a]=g
    out=[]
    for g in ({id(g):g for g in comp.values()}.values() if ok else ()):
        q={m:c for m,c in p.items() if m[0][0] in g}; l={}
        a=min(g); c=q.get(((a,2),))
        if c is None: ok=False; break
        try: k=isqrt_exact(c) if isinstance(c,int) else None
        except Exception: k=None
        if not k: ok=False; break
        l[((a,1),)]=k
        for b in g:
            if b!=a:
                x=q.get(((a,1),(b,1)) if a<b else ((b,1),(a,1)),0)
                if x%(2*k): ok=False; break
                if x: l[((b,1),)]=x//(2*k)
        if not ok or pmul(l,l)!=q: ok=False; break
        out.append(l)
    A.info["sumsq"]=out=out if ok else []
    return out
class Z3Ctx:
    def __init__(s):
        s.c={}; s.ax={}; s.ufs={}; s.bc={}; s.cg={}
    def frac(s,c):
        if type(c) is int: return z3.RealVal(c)
        return z3.RealVal("%d/%d"%(c.numerator,c.denominator))
    def zatom(s,i):
        r=s.c.get(i)
        if r is None:
            A=ATOMS[i]
            if A.kind=="uf":
                f=s.ufs.get((A.name,len(A.args)))
                if f is None:
                    sorts=[z3.IntSort() if s.argint(a) else z3.RealSort() for a in A.args]
                    f=z3.Function(A.name,*sorts,{"I":z3.IntSort(),"R":z3.RealSort(),"B":z3.BoolSort()}[A.sort])
                    s.ufs[(A.name,len(A.args))]=f
                r=f(*[s.ratdiv(a) for a in A.args])
            else:
                nm="%s_%d"%(A.name if A.kind in("var","const") else A.kind,i); nm=nm.replace("!","_")
                r={"R":z3.Real,"I":z3.Int,"B":z3.Bool}[A.sort](nm)
            s.c[i]=r
        return r
    def argint(s,a):
        return a.d==ONE and isint(a.n) and (bool(a.n) is False or all(type(c) is int for c in a.n.values()))
    def poly(s,p):
        if isint(p) and patoms(p):
            ts=[]
            for m,c in p.items():
                t=z3.IntVal(c)
                for a,e in m:
                    for _ in range(e): t=t*s.zatom(a) if not z3.is_int_value(t) or t.as_long()!=1 else s.zatom(a)
                ts.append(t)
            return z3.Sum(ts) if len(ts)>1 else ts[0]
        ts=[]
        for m,c in p.items():
            fs=[]
            if c!=1 or not m: fs.append(s.frac(c))
            for a,e in m:
                z=s.zatom(a)
                if ATOMS[a].sort=="I": z=z3.ToReal(z)
                for _ in range(e): fs.append(z)
            ts.append(z3.Product(fs) if len(fs)>1 else fs[0])
        if not ts: return z3.RealVal(0)
        return z3.Sum(ts) if len(ts)>1 else ts[0]
    def ratdiv(s,r):
        if s.argint(r): 
            return s.poly(r.n) if patoms(r.n) else z3.IntVal(int(cval(r.n)))
        n=s.poly(r.n)
        return n if r.d==ONE else n/s.poly(r.d)
    def b(s,x):
        if x is True or x is False: return z3.BoolVal(x)
        k=x.key(); r=s.bc.get(k)
        if r is None: r=s.bc[k]=s.b1(x)
        return r
    def b1(s,x):
        if x.op in("lt","le","eq","ne"):
            p=x.a
            # split constants to get nicer linear atoms
            z=s.poly(p)
            zero=z3.IntVal(0) if z.is_int() else z3.RealVal(0)
            return {"lt":z<zero,"le":z<=zero,"eq":z==zero,"ne":z!=zero}[x.op]
        if x.op=="and": return z3.And([s.b(y) for y in x.a])
        if x.op=="or": return z3.Or([s.b(y) for y in x.a])
        if x.op=="bv": return s.zatom(x.a.id)
        if x.op=="nbv": return z3.Not(s.zatom(x.a.id))
    def axioms(s,i):
        r=s.ax.get(i)
        if r is not None: return r
        A=ATOMS[i]; out=[]; dep=set(); z=None
        k=A.kind
        def use(r):
            dep.update(patoms(r.n)); dep.update(patoms(r.d))
        if k=="sqrt":
            z=s.zatom(i); out+=[z>=0,z*z==s.poly(A.sq)]; dep|=patoms(A.sq)
            if A.info.get("sign")=="+": out.append(z>0)
            for l in sumsq(A): l=s.poly(l); out+=[z>=l,z>=-l]
        elif k=="abs":
            z=s.zatom(i); q=A.args[0]; use(q); p=s.poly(q.n)
            out+=[z>=0,z3.Or(z==p,z==-p),z>=p,z>=-p]
        elif k=="cos":
            q=A.args[0]; z=s.zatom(i); sn=[a for a in ATOMS if a.kind=="sin" and a.args==A.args]
            if sn: y=s.zatom(sn[0].id); out+=[z*z+y*y==1,z<=1,z>=-1,y<=1,y>=-1]
        elif k=="sin":
            cs=[a for a in ATOMS if a.kind=="cos" and a.args==A.args]
            if cs: dep.add(cs[0].id)
        elif k=="const" and A.name==PI_NAME:
            z=s.zatom(i); out+=[z>s.frac(PI_LO),z<s.frac(PI_HI)]
        elif k=="acos":
            z=s.zatom(i); P=atom("const",PI_NAME); dep.add(P.id); x=A.args[0]; use(x)
            zp=s.zatom(P.id)
            out+=[z>=0,z<=zp,s.b(GT(x,0))==(z<zp/2),s.b(LT(x,0))==(z>zp/2),s.b(GE(x,1))==(z<=0)]
            # documented angle threshold: acos(x) < c  <=>  x > cos(c);  for x >= 0 also  <=> sqrt(1-x^2) < sin(c)
            sn=A.info["sincos"][0]; use(sn)
            for c,lo,hi,slo,shi in COSTAB:
                zc=z<s.frac(c)
                nn=s.b(GE(x,0))
                out+=[z3.Implies(zc,s.b(GT(x,lo))),z3.Implies(s.b(GT(x,hi)),zc),z3.Implies(zc,s.b(LT(sn,shi))),z3.Implies(z3.And(nn,s.b(LT(sn,slo))),zc)]
        elif k in("asin","atan"):
            z=s.zatom(i); P=atom("const",PI_NAME); dep.add(P.id); x=A.args[0]; use(x); zp=s.zatom(P.id)
            out+=[z>=-zp/2,z<=zp/2,s.b(GT(x,0))==(z>0),s.b(LT(x,0))==(z<0)]
            if k=="atan": out+=[z>-zp/2,z<zp/2]
        elif k=="atan2":
            z=s.zatom(i); P=atom("const",PI_NAME); dep.add(P.id); y,x=A.args; use(x); use(y)
            zp=s.zatom(P.id); yn,yp,yz=s.b(LT(y,0)),s.b(GT(y,0)),s.b(EQ(y,0)); xn,xp,xz=s.b(LT(x,0)),s.b(GT(x,0)),s.b(EQ(x,0))
            out+=[z>-zp,z<=zp,yn==(z<0),z3.Implies(yp,z>0),z3.Implies(z3.And(yz,z3.Not(xn)),z==0),z3.Implies(z3.And(yz,xn),z==zp),
                  z3.Implies(yp,z3.And(z<zp,xp==(z<zp/2),xz==(z==zp/2))),z3.Implies(yn,z3.And(xp==(z>-zp/2),xz==(z==-zp/2)))]
        elif k=="ite":
            z=s.zatom(i); c,x,y=A.args; use(x); use(y); batoms(c,dep); zc=s.b(c)
            if A.sort!="B": out+=[z3.Implies(zc,z==s.ratdiv(x)),z3.Implies(z3.Not(zc),z==s.ratdiv(y))]
        elif k=="quo":
            z=s.zatom(i); n,d=A.args; use(n); use(d); out.append(z*s.poly(d.n)==s.poly(n.n))
        elif k=="sgn":
            import summ
            o2,d2=summ.sgn_axioms(s,i,A); out+=o2; dep|=d2
        elif k=="sel": use(A.args[0])
        elif k=="sum": use(A.args[1])
        elif k=="uf":
            for a in A.args: use(a)
            if A.info and A.info.get("ax"):
                for bx in A.info["ax"]: batoms(bx,dep); out.append(s.b(bx))
            if A.info and A.info.get("sign")in("+","0+"):
                out.append(s.zatom(i)>0 if A.info["sign"]=="+" else s.zatom(i)>=0)
        elif k=="var" and A.info:
            if A.info.get("sign")=="+": out.append(s.zatom(i)>0)
            elif A.info.get("sign")=="0+": out.append(s.zatom(i)>=0)
            if A.info.get("ax"):
                for bx in A.info["ax"]: batoms(bx,dep); out.append(s.b(bx))
        # denominators used in ratdiv are non zero where the atom was created (obligation of the path)
        for a in A.args:
            if isinstance(a,Rat) and a.d!=ONE:
                out.append(s.poly(a.d)!=0)
        s.ax[i]=(out,dep)
        return s.ax[i]
    def closure(s,bs):
        """axioms of all atoms reachable from the boolean terms"""
        todo=set()
        for b in bs: batoms(b,todo)
        seen=set(); out=[]
        todo=list(todo); sels={}
        while todo:
            i=todo.pop()
            if i in seen: continue
            seen.add(i)
            o,d=s.axioms(i)
            out+=o
            todo.extend(d-seen)
            if ATOMS[i].kind=="sel": sels.setdefault(ATOMS[i].name,[]).append(i)
        for l in sels.values():     # equal positions hold equal values
            for x in range(len(l)):
                for y in range(x):
                    k=(l[x],l[y]) if l[x]>l[y] else (l[y],l[x]); e=s.cg.get(k)
                    if e is None:
                        df=ATOMS[k[0]].args[0]-ATOMS[k[1]].args[0]
                        e=s.cg[k]=True if df.isconst() else z3.Implies(s.b(EQ(df,0)),s.zatom(k[0])==s.zatom(k[1]))
                    if e is not True: out.append(e)
        return out,seen
# rational enclosures of cos at the angle thresholds in use (cos c in (lo,hi))
def _costab():
    from fractions import Fraction as F
    t=[]
    for c in (F(1,1000),):
        # Taylor with remainder
        s=F(0); term=F(1)
        for k in range(0,12):
            s+=term; term=-term*c*c/((2*k+1)*(2*k+2))
        e=F(1,10**40)
        # round outward to 40 digits
        lo=F(int(s*10**40)-1,10**40); hi=F(int(s*10**40)+2,10**40)
        s=F(0); term=c
        for k in range(0,12):
            s+=term; term=-term*c*c/((2*k+2)*(2*k+3))
        t.append((c,lo,hi,F(int(s*10**40)-1,10**40),F(int(s*10**40)+2,10**40)))
    return t
COSTAB=_costab()
