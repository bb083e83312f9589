"""Exact algebra: rational functions over 'atoms' (inputs, square roots, absolute values, trigonometric values,
sequence elements, ghost folds).  Square roots, absolute values and cosines carry a rewriting rule for their square, so
that every value has a canonical form and an equality of values that follows from the definitions is decided by
normalisation."""
from fractions import Fraction
from functools import lru_cache
from sympy.polys.rings import ring as _ring
from sympy import ZZ

class Undef(Exception): pass

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__=("id","kind","name","args","sort","sq","info")
    def __init__(s,kind,name,args,sort):
        s.kind=kind; s.name=name; s.args=args; s.sort=sort; s.sq=None; s.info=None
ATOMS=[]
_AK={}
def atom(kind,name,args=(),sort="R"):
    k=(kind,name,args)
    a=_AK.get(k)
    if a is None:
        a=Atom(kind,name,args,sort); a.id=len(ATOMS); ATOMS.append(a); _AK[k]=a
    return a
def reset():
    ATOMS.clear(); _AK.clear(); _gcdcache.clear(); _sqfcache.clear()

# ----------------------------------------------------------------- polynomials: dict mono -> coef
# mono: tuple of (atom id, exponent) sorted by id
def norm_coef(c):
    if type(c) is Fraction and c.denominator==1: return c.numerator
    return c
def pconst(c):
    return {():c} if c else {}
ONE={():1}
ZERO={}
def pvar(a): return {((a.id,1),):1}
def padd(p,q,f=1):
    if len(p)<len(q) and f==1: p,q=q,p
    r=dict(p)
    for m,c in q.items():
        if f!=1: c=c*f
        v=r.get(m)
        if v is None: r[m]=c
        else:
            v=v+c
            if v: r[m]=norm_coef(v)
            else: del r[m]
    return r
def pscale(p,f):
    if f==1: return p
    if not f: return {}
    return {m:norm_coef(c*f) for m,c in p.items()}
def mmul(a,b):
    if not a: return b
    if not b: return a
    i=j=0; la=len(a); lb=len(b); out=[]
    while i<la and j<lb:
        x=a[i]; y=b[j]
        if x[0]==y[0]: out.append((x[0],x[1]+y[1])); i+=1; j+=1
        elif x[0]<y[0]: out.append(x); i+=1
        else: out.append(y); j+=1
    if i<la: out.extend(a[i:])
    if j<lb: out.extend(b[j:])
    return tuple(out)
class TooBig(Exception): pass
MAXTERMS=20000
def praw_mul(p,q):
    if len(p)*len(q)>4000000: raise TooBig()
    r={}
    for m1,c1 in p.items():
        for m2,c2 in q.items():
            m=mmul(m1,m2); c=c1*c2
            v=r.get(m)
            r[m]=c if v is None else v+c
    return {m:norm_coef(c) for m,c in r.items() if c}
def preduce(p):
    """apply the square rules"""
    while True:
        bad=None
        for m in p:
            for (a,e) in m:
                if e>=2 and ATOMS[a].sq is not None:
                    bad=True; break
            if bad: break
        if not bad: return p
        r={}
        for m,c in p.items():
            hit=None
            for i in range(len(m)-1,-1,-1):
                a,e=m[i]
                if e>=2 and ATOMS[a].sq is not None: hit=i; break
            if hit is None:
                v=r.get(m); r[m]=c if v is None else v+c
                continue
            a,e=m[hit]
            rest=m[:hit]+(((a,1),) if e&1 else ())+m[hit+1:]
            q={rest:c}
            s=ATOMS[a].sq
            for _ in range(e//2): q=praw_mul(q,s)
            for m2,c2 in q.items():
                v=r.get(m2); r[m2]=c2 if v is None else v+c2
        p={m:norm_coef(c) for m,c in r.items() if c}
        if len(p)>MAXTERMS: raise TooBig()
def pmul(p,q):
    if not p or not q: return {}
    if len(p)==1 and () in p: return pscale(q,p[()])
    if len(q)==1 and () in q: return pscale(p,q[()])
    return preduce(praw_mul(p,q))
def pneg(p): return {m:-c for m,c in p.items()}
def is_const(p): return not p or (len(p)==1 and () in p)
def cval(p): return p.get((),0) if p else 0
def patoms(p):
    s=set()
    for m in p:
        for a,e in m: s.add(a)
    return s
def pkey(p): return frozenset(p.items())
def pdeg(p): return max((sum(e for _,e in m) for m in p),default=0)

def _lcm_den(p):
    from math import lcm
    d=1
    for c in p.values():
        if type(c) is Fraction: d=lcm(d,c.denominator)
    return d
def _content(p):
    from math import gcd
    g=0
    for c in p.values(): g=gcd(g,int(c))
    return g
_rings={}
def _getring(ids):
    r=_rings.get(len(ids))
    if r is None:
        if ids: r=_ring(["x%d"%i for i in range(len(ids))],ZZ)[0]
        _rings[len(ids)]=r
    return r
def tosym(p,ids):
    R=_getring(ids); ix={a:i for i,a in enumerate(ids)}; n=len(ids)
    d={}
    for m,c in p.items():
        e=[0]*n
        for a,k in m: e[ix[a]]=k
        d[tuple(e)]=ZZ(int(c))
    return R.from_dict(d)
def fromsym(sp,ids):
    r={}
    for e,c in sp.terms():
        r[tuple((ids[i],k) for i,k in enumerate(e) if k)]=int(c)
    return r
_gcdcache={}
def monogcd(p):
    """common monomial of all the terms"""
    it=iter(p); m=dict(next(it))
    for q in it:
        if not m: break
        dq=dict(q)
        for a in list(m):
            e=min(m[a],dq.get(a,0))
            if e: m[a]=e
            else: del m[a]
    return m
def divmono(p,m):
    if not m: return p
    r={}
    for q,c in p.items():
        r[tuple((a,e-m.get(a,0)) for a,e in q if e-m.get(a,0))]=c
    return r
GCDLIM=260
def cancel(n,d):
    """cancel common factors of n/d (d non zero); returns integer-coefficient pair where possible"""
    if not n: return ZERO,ONE
    if is_const(d):
        c=cval(d)
        if c==1: return n,ONE
        return pscale(n,Fraction(1)/c),ONE
    k=(pkey(n),pkey(d))
    r=_gcdcache.get(k)
    if r is not None: return r
    ln=_lcm_den(n); ld=_lcm_den(d)
    n2=pscale(n,ln) if ln!=1 else n
    d2=pscale(d,ld) if ld!=1 else d
    f=Fraction(ld,ln)
    md=monogcd(d2)
    for a in md:
        if ATOMS[a].kind=="sgn":        # 1/s = s
            d2=divmono(d2,{a:1}); n2=pmul(n2,pvar(ATOMS[a])); md=monogcd(d2)
            if is_const(d2): break
    if not n2: return ZERO,ONE
    if is_const(d2): 
        r=(pscale(n2,f/cval(d2)),ONE); _gcdcache[k]=r; return r
    mn=monogcd(n2)
    mg={a:min(mn[a],md[a]) for a in mn if a in md}
    if mg: n2=divmono(n2,mg); d2=divmono(d2,mg)
    if not is_const(n2) and not is_const(d2) and len(n2)<=GCDLIM and len(d2)<=GCDLIM:
        A=patoms(n2)&patoms(d2)
        if A:
            ids=tuple(sorted(patoms(n2)|patoms(d2)))
            sn=tosym(n2,ids); sd=tosym(d2,ids)
            try:
                g,cn,cd=sn.cofactors(sd)
                if g!=1:
                    n2=fromsym(cn,ids); d2=fromsym(cd,ids)
            except Exception: pass
    # normalise: d primitive with positive leading coefficient
    cd=_content(d2)
    lead=d2[max(d2)]
    if lead<0: cd=-cd
    if cd!=1: d2={m:c//cd for m,c in d2.items()}; f=f/cd
    if is_const(d2): f=f/cval(d2); d2=ONE
    if f!=1: n2=pscale(n2,f)
    r=(n2,d2)
    _gcdcache[k]=r
    if len(_gcdcache)>200000: _gcdcache.clear()
    return r

class Rat:
    """value num/den"""
    __slots__=("n","d","_k")
    def __init__(s,n,d=ONE): s.n=n; s.d=d; s._k=None
    @property
    def key(s):
        if s._k is None: s._k=(pkey(s.n),pkey(s.d))
        return s._k
    def isconst(s): return is_const(s.n) and is_const(s.d)
    def const(s): return Fraction(cval(s.n))/cval(s.d)
    def __eq__(s,o): return isinstance(o,Rat) and s.key==o.key
    def __hash__(s): return hash(s.key)
    def __repr__(s):
        if s.d==ONE: return pstr(s.n)
        return "(%s)/(%s)"%(pstr(s.n),pstr(s.d))
    def __add__(s,o):
        o=R(o)
        if not s.n: return o
        if not o.n: return s
        if s.d==o.d:
            n=padd(s.n,o.n)
            if s.d==ONE: return Rat(n)
            return mk(n,s.d)
        return mk(padd(pmul(s.n,o.d),pmul(o.n,s.d)),pmul(s.d,o.d))
    def __neg__(s): return Rat(pneg(s.n),s.d)
    def __sub__(s,o): return s+(-R(o))
    def __rsub__(s,o): return R(o)-s
    def __mul__(s,o):
        o=R(o)
        if not s.n or not o.n: return RZERO
        if s.d==ONE and o.d==ONE: return Rat(pmul(s.n,o.n))
        # cross cancel first
        n1,d2=cancel(s.n,o.d) if o.d!=ONE else (s.n,ONE)
        n2,d1=cancel(o.n,s.d) if s.d!=ONE else (o.n,ONE)
        return mk(pmul(n1,n2),pmul(d1,d2))
    def inv(s):
        if not s.n: raise Undef("division by zero")
        return mk(s.d,s.n)
    def __truediv__(s,o):
        return s*R(o).inv()
    def __rtruediv__(s,o): return R(o)/s
    def __pow__(s,k):
        r=RONE
        for _ in range(k): r=r*s
        return r
    __radd__=__add__
    __rmul__=__mul__
def mk(n,d):
    n,d=cancel(n,d)
    return Rat(n,d)
RZERO=Rat(ZERO); RONE=Rat(ONE)
def R(x):
    if isinstance(x,Rat): return x
    if isinstance(x,bool): return RONE if x else RZERO
    if isinstance(x,int): return Rat(pconst(x))
    if isinstance(x,Fraction): return Rat(pconst(norm_coef(x)))
    if isinstance(x,float): return fconst(x)
    if isinstance(x,Atom): return Rat(pvar(x))
    raise TypeError(type(x))
def var(name,sort="R"): return R(atom("var",name,(),sort))

PI_NAME="PI"
def pi():
    return R(atom("const",PI_NAME))
import math
_PIMUL={}
for _n in range(1,13):
    for _d in (1,2,3,4,5,6,8,12,180,360):
        _PIMUL.setdefault(math.pi*_n/_d,Fraction(_n,_d))
def fconst(x):
    """a double constant of the program: shortest decimal, or a multiple of pi"""
    if x!=x or x in (float("inf"),float("-inf")):
        return R(atom("const","NAN" if x!=x else ("INF" if x>0 else "NINF")))
    f=_PIMUL.get(abs(x))
    if f is not None:
        return pi()*(f if x>0 else -f)
    return R(Fraction(repr(x)))

def pstr(p):
    if not p: return "0"
    out=[]
    for m,c in sorted(p.items(),key=lambda t:(len(t[0]),t[0])):
        s="*".join((astr(ATOMS[a])+("^%d"%e if e>1 else "")) for a,e in m)
        if not m: s=str(c)
        elif c==1: pass
        elif c==-1: s="-"+s
        else: s="%s*%s"%(c,s)
        out.append(s)
    return " + ".join(out).replace("+ -","- ")
def astr(a):
    if a.kind in("var","const"): return a.name
    if a.kind=="sqrt": return "sqrt(%s)"%pstr(a.sq)
    if a.kind=="abs": return "|%s|"%a.args[0]
    return "%s%s(%s)"%(a.kind if a.kind!="uf" else "",a.name,",".join(map(str,a.args)))

_sqfcache={}
def sqf(p):
    """integer polynomial p = c * prod f_i^e_i"""
    k=pkey(p)
    r=_sqfcache.get(k)
    if r is not None: return r
    if is_const(p): r=(cval(p),[])
    else:
        m=monogcd(p); fs=[(pvar(ATOMS[a]),e) for a,e in m.items()]
        q=divmono(p,m)
        c=_content(q)
        if q[max(q)]<0: c=-c
        q={mm:cc//c for mm,cc in q.items()}
        if not is_const(q):
            if len(q)<=400:
                ids=tuple(sorted(patoms(q)))
                try:
                    c2,l=tosym(q,ids).sqf_list()
                    c*=int(c2)
                    fs+=[(fromsym(f,ids),e) for f,e in l]
                except Exception:
                    fs.append((q,1))
            else: fs.append((q,1))
        else: c*=cval(q)
        r=(c,fs)
    _sqfcache[k]=r
    return r
def isqrt_exact(c):
    from math import isqrt
    s=isqrt(c)
    return s if s*s==c else None
def split_square(c):
    """c>0 integer = a^2*b, small square factors only"""
    a=1
    s=isqrt_exact(c)
    if s is not None: return s,1
    for pr in (2,3,5,7,10,11,13):
        while c%(pr*pr)==0: c//=pr*pr; a*=pr
    s=isqrt_exact(c)
    if s is not None: return a*s,1
    return a,c

def struct_sign(p):
    """'+' if structurally > 0, '0+' if >=0, '-' , '0-' or None"""
    if not p: return "0+"
    pos=neg=True; strict=False
    for m,c in p.items():
        ok=True; st=True
        for a,e in m:
            A=ATOMS[a]
            nn=A.info and A.info.get("sign")
            if e%2==0:
                if nn not in("+","-"): st=False
            elif nn=="+": pass
            elif nn=="0+": st=False
            else: ok=False; break
        if not ok: return None
        if c>0: neg=False
        else: pos=False
        if st: strict=True
        if not pos and not neg: return None
    if pos: return "+" if strict else "0+"
    return "-" if strict else "0-"
