from core import *
TU="pairs"
NULLD=(1,10**10)
def pts(M,k,v):
    """the corner points of an object given by its four numbers, and whether it can be built"""
    T=M.q(*NULLD)
    if k=="p": return [(v[0],v[1])],True
    if k=="c": return [(v[0]-v[2],v[1]-v[2]),(v[0]+v[2],v[1]+v[2])],M.ge(v[2],T)
    a,b=(v[0],v[1]),(v[2],v[3])
    if k=="r": return [a,b],M.AND(M.ge(M.abs(a[0]-b[0]),T),M.ge(M.abs(a[1]-b[1]),T))
    return [a,b],M.ge(M.hyp(a[0]-b[0],a[1]-b[1]),T)
def box(M,ps,b):
    for p in ps: yield "contains the objects",M.AND(M.le(b[0],p[0]),M.le(p[0],b[2]),M.le(b[1],p[1]),M.le(p[1],b[3]))
    for k in range(4): yield "each side is touched",M.OR(*[M.eq(b[k],p[k%2]) for p in ps])
def post(M,r,ps,ok):
    T=M.q(*NULLD)
    span=[[M.lt(M.abs(p[c]-q[c]),T) for i,p in enumerate(ps) for q in ps[:i]] for c in(0,1)]
    if r.threw: yield "throws only for an object that cannot be built, or if all the points share a coordinate",M.OR(M.NOT(ok),*[M.AND(*s) for s in span]); return
    yield "points sharing a coordinate throw",M.AND(*[M.OR(*[M.ne(p[c],q[c]) for i,p in enumerate(ps) for q in ps[:i]]) for c in(0,1)])
    yield from box(M,ps,[r[k] for k in range(4)])
NAMES=dict(p="point",s="segment",o="oriented_segment",c="circle",r="rectangle")
def pair(k,split=False):
    pre=(lambda M,i:[(M.lt,M.eq,M.gt)[o](a,b) for o,a,b in((i.o,i.a,i.c),(i.o2,i.e,i.g))]) if split else None
    @contract("C25.pair_%s_%s"%(NAMES[k[0]],NAMES[k[1]]),"bb_"+k,"a b c d e f g h"+(" o:0,1,2 o2:0,1,2" if split else ""),inp=lambda M,i:[i.a,i.b,i.c,i.d,i.e,i.f,i.g,i.h],pre=pre,feas=60,deadline=90,opts=dict(handlers=[itemax]))
    def _(M,i,r):
        p,ok=pts(M,k[0],[i.a,i.b,i.c,i.d]); q,ok2=pts(M,k[1],[i.e,i.f,i.g,i.h])
        yield from post(M,r,p+q,M.AND(ok,ok2))
for _k in "pp ps pc pr sc sr cc cr rr".split(): pair(_k)
pair("ss",True)
def single(k):
    @contract("C25."+NAMES[k],"bb_"+k,"a b c d",feas=60,deadline=60)
    def _(M,i,r):
        p,ok=pts(M,k,[i.a,i.b,i.c,i.d]); yield from post(M,r,p,ok)
for _k in "cr": single(_k)
