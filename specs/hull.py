import itertools
from core import *
from poly import same,NULLD
TU="hull"
# the lowest (then leftmost) point is the m-th; the others are given relative to it, and the cases are the signs of their cross products
def cross(a,b,c): return (b[0]-a[0])*(c[1]-b[1])-(b[1]-a[1])*(c[0]-b[0])
def rel(i,n): return [(getattr(i,"a%d"%k),getattr(i,"b%d"%k)) for k in range(1,n)]
def pts(i,n):
    o=[(i.x+a,i.y+b) for a,b in rel(i,n)]; o.insert(int(i.m),(i.x,i.y)); return o
def crs(p,q): return p[0]*q[1]-p[1]*q[0]
# the weak orders of n-1 directions in the upper half plane: rank of each point (equal rank: aligned with the lowest point)
def orders(n): return sorted(r for r in itertools.product(range(n-1),repeat=n-1) if set(r)==set(range(max(r)+1)))
SG=lambda M,s,e: M.gt(e,0) if s>0 else M.lt(e,0) if s<0 else M.eq(e,0)
def hull(nm,fn,n,modes=None,low=None):
    pairs=[(j,k) for k in range(1,n) for j in range(1,k)]; od=orders(n)
    def pre(M,i):
        p=rel(i,n); q=[(M.q(0),M.q(0))]+p
        return [M.OR(M.gt(b,0),M.AND(M.eq(b,0),M.gt(a,0))) for a,b in p]+[M.ge(M.hyp(q[j][0]-q[k][0],q[j][1]-q[k][1]),M.q(*NULLD)) for k in range(n) for j in range(k)]+[SG(M,od[int(i.o)][k-1]-od[int(i.o)][j-1],crs(p[j-1],p[k-1])) for j,k in pairs]
    @contract("C28."+nm,fn,("f:%s "%",".join(map(str,modes)) if modes else "")+"m:%s x y "%",".join(map(str,low or range(n)))+" ".join("a%d b%d"%(k,k) for k in range(1,n))+" o:"+",".join(map(str,range(len(od)))),bounded="%d points"%n,
      inp=lambda M,i:[n]+[c for p in pts(i,n) for c in p]+([i.f] if modes else []),pre=pre,feas=200,deadline=100,opts=dict(handlers=[ptnorm]),nout=16)
    def _(M,i,r):
        v=pts(i,n); e=M.q(1,10**15)
        yield "does not throw",not r.threw
        if r.threw: return
        z=int(r.ret.const()) if M.sym and hasattr(r.ret,"const") else int(r.ret); h=[(r[2*k],r[2*k+1]) for k in range(z)]
        yield "2 to %d vertices"%n,2<=z<=n
        for p in h: yield "each vertex is a point of the set",M.OR(*[same(M,p,q) for q in v])
        if n<4: return
        for k in range(z):
            yield "convex",M.ge(cross(h[k-2],h[k-1],h[k]),-e)
            for p in v: yield "every point of the set is on the inner side of each edge",M.ge(cross(h[k-1],h[k],p),-e)
hull("vector","hull",4)
hull("polyline","hull_poly",4,(0,1),(0,))
# whatever the orientations of the triples (nearly aligned points, rounded arithmetic): no access outside the stack or the vectors
@contract("C28.rounding","hull","m:0 x y a1 b1 a2 b2 a3 b3 o:"+",".join(map(str,range(13))),bounded="4 points",
  inp=lambda M,i:[4]+[c for p in pts(i,4) for c in p],pre=lambda M,i:[M.OR(M.gt(b,0),M.AND(M.eq(b,0),M.gt(a,0))) for a,b in rel(i,4)]+[M.ge(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(*NULLD)) for p,q in itertools.combinations([(M.q(0),M.q(0))]+rel(i,4),2)]
    +[SG(M,orders(4)[int(i.o)][k-1]-orders(4)[int(i.o)][j-1],crs(rel(i,4)[j-1],rel(i,4)[k-1])) for k in range(1,4) for j in range(1,k)],
  feas=100,opts=dict(handlers=[ptnorm,anyturn]),nout=16)
def _(M,i,r):
    v=pts(i,4); yield "does not throw",not r.threw
    if r.threw: return
    z=int(r.ret.const()) if M.sym and hasattr(r.ret,"const") else int(r.ret); yield "2 to 4 vertices",2<=z<=4
    for k in range(z): yield "each vertex is a point of the set",M.OR(*[same(M,(r[2*k],r[2*k+1]),q) for q in v])
