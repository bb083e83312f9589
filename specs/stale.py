from core import *
from poly import inbox,al,some,flat1,invalid,valid,same,dist,shoelace2,one,nothrow,NULLD
TU="stale"
class Img:
    """the sequence of the images of the points"""
    def __init__(s,v,f): s.v=v; s.n=v.n if isinstance(v,USeq) else len(v); s.f=f
    def __getitem__(s,k): return s.f(s.v[k])
def image(M,i):
    z=M.q(0)
    if i.m in(0,1): return lambda p:(p[0]+i.u,p[1]+i.w)
    if i.m in(2,3): return lambda p:(p[0]-i.v[0][0]+i.u,p[1]-i.v[0][1]+i.w)
    if i.m==14: return lambda p:(p[0]*2,p[1]*3)
    c=(i.u,i.w) if i.m>=9 else (z,z)
    def f(p):
        x,y=p[0]-c[0],p[1]-c[1]
        x,y=((-y,x),(y,-x),(-x,-y),(-x,y),(x,-y))[i.m-4 if i.m<9 else i.m-9]
        return (x+c[0],y+c[1])
    return f
def total(M,v,closed):
    n=v.n
    s=M.sum(0,n-1,lambda k:dist(M,v[k],v[k+1]))
    return s+dist(M,v[n-1],v[0]) if closed else s
def inp(M,i): return [i.q,i.m,i.h0 if M.sym else 2,i.h1,i.u,i.w]
def asfresh(M,r,q): return M.AND(*[M.eq(r[k],r[20+k]) for k in range(1 if q==0 else 4)])
RIGID="0,1,2,3,4,5,6,7,8,9,10,11,12,13"
def length_spec(nm,fn,closed):
    @contract("C22."+nm,fn,"v[]:*>=2,2,3 q:0 h0:0 h1:0 m:"+RIGID+",14 u w",inp=inp,feas=60,deadline=90,opts=dict(handlers=[ptnorm,symorder,anyorder,phases]),nout=24)
    def _(M,i,r):
        if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,closed); return
        if not M.sym: yield "the same length as a fresh polyline",asfresh(M,r,0); return
        yield "after the change: the length of the changed points",M.eq(r[0],total(M,Img(i.v,image(M,i)),closed))
length_spec("length_closed","st_cp",True); length_spec("length_open","st_op",False)
def bb_spec(nm,fn,closed,ms):
    @contract("C22."+nm,fn,"v[]:2 q:2 h0:0 h1:0 m:"+RIGID+",14 u w",bounded="2 points",cases=[dict(n=2,q=2,h0=0,h1=0,m=m) for m in ms],inp=inp,feas=60,deadline=90,opts=dict(handlers=[ptnorm,symorder,anyorder,phases]),nout=24)
    def _(M,i,r):
        w=Img(i.v,image(M,i))
        if r.threw: yield "throws only for points refused by the polyline, or sharing a coordinate",M.OR(invalid(M,i.v,closed),invalid(M,w,closed),flat1(M,i.v),flat1(M,w)); return
        if not M.sym: yield "the same bounding box as a fresh polyline",M.AND(*[M.eq(r[k],r[20+k]) for k in range(4)]); return
        yield "the box of the changed points contains all of them",al(M,w,lambda p:inbox(M,r,p))
        for k in range(4): yield "each side touches the changed points",some(M,w,lambda p:M.eq(r[k],p[k%2]))
bb_spec("bb_closed","st_cp",True,(0,4,10,14)); bb_spec("bb_open","st_op",False,(2,8,14))
def simple(M,i,n):
    """simple, when the segments that are not neighbours meet or not as h1 tells"""
    return M.OR(M.eq(n,3),M.AND(M.gt(n,3),i.h1==0))
def others(M,i,r,v,closed,exact,orig=None):
    """simplicity, area and centroid of the points v; not exact: the change is rigid, and the values before it serve as well"""
    n=v.n
    if not closed: yield "an open polyline is not a polygon",M.AND(M.eq(r[0],0),M.eq(r[1],0)); return
    s=M.AND(M.eq(r[0],1),simple(M,i,n)); yield "simplicity as the points and their crossings have it now",M.OR(s,M.AND(M.eq(r[0],0),M.NOT(simple(M,i,n))))
    ref=[v]+([orig] if orig is not None else [])
    yield "the area is the absolute shoelace sum of the changed points",M.OR(M.AND(M.eq(r[0],0),M.eq(r[1],0)),M.AND(M.eq(r[0],1),M.OR(*[M.eq(r[1]*2,M.abs(shoelace2(M,w,one))) for w in ref])))
    A=shoelace2(M,v,one)
    for c in(0,1): yield "the centroid is the one of the changed points",M.OR(M.eq(r[0],0),M.eq(r[2+c]*3*A,shoelace2(M,v,lambda p,q:p[c]+q[c])))
def others_spec(nm,fn,closed,ms=range(15),**kw):
    @contract("C22."+nm,fn,"v[]:*>=3,3,4 q:1 h0:0,1 h1:0,1 m:"+RIGID+",14 u w",
      cases=[dict(n=n,q=1,h0=h0,h1=h1,m=m) for n in(3,4) for m in ms for h0,h1 in(((0,0),) if m<14 or not closed else ((0,1),(1,0)))],
      pre=lambda M,i:[M.ne(shoelace2(M,i.v,one),0),M.ne(shoelace2(M,Img(i.v,image(M,i)),one),0)],inp=inp,feas=60,deadline=120,opts=dict(handlers=[ptnorm,symorder,phases]),nout=24,**kw)
    def _(M,i,r):
        if r.threw: yield "throws only for points refused by the polyline",M.OR(invalid(M,i.v,closed),*([invalid(M,Img(i.v,image(M,i)),closed)] if i.m==14 else [])); return
        if not M.sym: yield "the same attributes as a fresh polyline",asfresh(M,r,1); return
        yield from others(M,i,r,Img(i.v,image(M,i)),closed,i.m==14,i.v if i.m<14 else None)
others_spec("attributes_closed","st_cp",True,(0,3,7,14)); others_spec("attributes_closed_every_motion","st_cp",True,(1,2,4,5,6,8,9,10,11,12,13),tier="thorough")
others_spec("attributes_open","st_op",False)
WV="x0 y0 x1 y1 x2 y2 x3 y3"
def wpts(i):
    a,b,c,d=(i.x0,i.y0),(i.x1,i.y1),(i.x2,i.y2),(i.x3,i.y3)
    return [a,b,c,d] if i.m!=3 else [a,(a[0],c[1]),c,(c[0],a[1])]
def ring(f,w): return sum((f(w[k],w[(k+1)%4]) for k in range(4)),0)
cr=lambda p,q:p[0]*q[1]-q[0]*p[1]
def set_spec(nm,vs,ms,ns,**kw):
  @contract("C22."+nm,"st_set",vs+" m:0,1,2,3,4 q:0,1 h0:0,1 h1:0,1 "+WV,
  cases=[dict(n=n,m=m,q=q,h0=h0,h1=h1) for n in ns for m in ms for q,h0,h1 in((0,0,0),(1,0,1),(1,1,0))],
  pre=lambda M,i:[M.ne(shoelace2(M,i.v,one),0),M.ne(ring(cr,wpts(i)),0),M.lt(i.x0,i.x2),M.lt(i.y0,i.y2)],
  inp=lambda M,i:[i.q,i.m,i.h0 if M.sym else 2,i.h1,i.x0,i.y0,i.x1,i.y1,i.x2,i.y2,i.x3,i.y3],feas=60,deadline=120,opts=dict(handlers=[ptnorm,symorder,phases]),nout=24,**kw)
  def _(M,i,r):
      w=wpts(i); n=NULLD
      bad=M.OR(*[M.lt(M.hyp(w[k][0]-w[(k+1)%4][0],w[k][1]-w[(k+1)%4][1]),M.q(*n)) for k in range(4)])
      if i.m==3: bad=M.OR(M.lt(M.abs(i.x0-i.x2),M.q(*n)),M.lt(M.abs(i.y0-i.y2),M.q(*n)))
      if r.threw: yield "throws only for points refused by the polyline",M.OR(invalid(M,i.v,True),bad); return
      if not M.sym: yield "the same attributes as a fresh polyline",asfresh(M,r,i.q); return
      if i.q==0: yield "the length is the one of the new points",M.eq(r[0],ring(lambda p,q:dist(M,p,q),w)); return
      yield "simple as the new crossings tell",M.eq(r[0],1-i.h1)
      if i.h1: yield "a polygon with crossings has no area",M.eq(r[1],0); return
      A=ring(cr,w)
      yield "the area is the absolute shoelace sum of the new points",M.eq(r[1]*2,M.abs(A))
      for c in(0,1): yield "the centroid is the one of the new points",M.eq(r[2+c]*3*A,ring(lambda p,q:(p[c]+q[c])*cr(p,q),w))
set_spec("set","v[]:*>=3,3",(0,1,3,4),(3,)); set_spec("assign","v[]:3,4,5",(2,),(3,4,5),bounded="an earlier polyline of 3 to 5 points")
