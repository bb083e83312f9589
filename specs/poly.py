from core import *
TU="poly"
NULLD=(1,10**10)
def far(M,p,q): return M.ge(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(*NULLD))
def close(M,p,q): return M.lt(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(*NULLD))
def same(M,p,q): return M.AND(M.eq(p[0],q[0]),M.eq(p[1],q[1]))
def d2(M,p,q): return (q[0]-p[0])*(q[0]-p[0])+(q[1]-p[1])*(q[1]-p[1])
def nothrow(r): return ("does not throw",not r.threw)
def idx(M,x,n):
    """an index written as a number: its value if it is a constant"""
    if isinstance(x,Rat): return int(x.const()) if x.isconst() else None
    return int(x) if x==x and abs(x)<1e9 and x==int(x) else None
def el(M,v,x):
    """the element at a position given as a number, and whether it is a position"""
    if M.sym and isinstance(v,USeq): return M.AND(M.le(0,x),M.lt(x,v.n)),v[x]
    k=idx(M,x,len(v))
    ok=k is not None and 0<=k<len(v)
    return ok,(v[k] if ok else None)
def each(M,v,label,f,lo=0,hi=None):
    """f of each element (k: its position)"""
    n=v.n if hi is None else hi
    if M.sym and isinstance(v,USeq): yield label,M.forall(lo,n,lambda k:f(v[k]))
    else:
        for k in range(int(lo),int(n)): yield label,f(v[k])
def some(M,v,f,lo=0,hi=None,cands=()): return M.exists(lo,v.n if hi is None else hi,lambda k:f(v[k]),cands)
def al(M,v,f,lo=0,hi=None): return M.forall(lo,v.n if hi is None else hi,lambda k:f(v[k]))
def invalid(M,v,closed):
    """the condition under which a polyline refuses its points"""
    n=v.n
    return M.OR(M.eq(n,1),M.exists(0,n-1,lambda k:close(M,v[k],v[k+1])),M.AND(M.gt(n,1 if closed else 2),close(M,v[0],v[n-1])))
def valid(M,v,closed):
    n=v.n
    return M.AND(M.ne(n,1),M.forall(0,n-1,lambda k:far(M,v[k],v[k+1])),M.OR(M.lt(n,2 if closed else 3),far(M,v[0],v[n-1])))
# ------------------------------------------------------------ C26
AX=dict(t=(1,-1),b=(1,1),l=(0,1),r=(0,-1))       # coordinate, direction
def beats(M,p,q,ax):
    """p is strictly further than q, or as far with the lower other coordinate"""
    c,s=AX[ax]; a,b=s*p[c],s*q[c]
    return M.OR(M.lts(a,b),M.AND(M.eq(a,b),M.lt(p[1-c],q[1-c])))
def extreme(M,v,p,ax):
    yield from each(M,v,"no element is further in that direction, nor as far and lower in the other coordinate",lambda q:M.NOT(beats(M,q,p,ax)))
def ext_post(M,i,r,ax):
    if r.threw: yield "throws only for an empty container",M.eq(i.n,0); return
    yield "an empty container throws",M.gt(i.n,0)
    ok,p=el(M,i.v,r[2])
    yield "the index is a position of the container",ok
    if p is None: return
    yield "the point is the element of that index",same(M,(r[0],r[1]),p)
    yield from extreme(M,i.v,p,ax)
def ext(ax):
    @contract("C26.%s"%{"t":"top","b":"bottom","l":"left","r":"right"}[ax],"ext_"+ax,"v[]:*,0,1,2,3,4")
    def _(M,i,r): yield from ext_post(M,i,r,ax)
for _a in "tblr": ext(_a)
DIRS="tblr"
@contract("C26.direction","ext_dir","v[]:*,0,1,2,3 d:0,1,2,3")
def _(M,i,r): yield from ext_post(M,i,r,DIRS[i.d])
def ext_poly(nm,fn,closed):
    @contract("C26."+nm,fn,"v[]:*,2,3,4 d:0,1,2,3 how:0,1,2",feas=60,deadline=90)
    def _(M,i,r):
        if r.threw: yield "throws only for an empty container or points refused by the polyline",M.OR(M.eq(i.n,0),invalid(M,i.v,closed)); return
        yield "an empty container throws",M.gt(i.n,0)
        p=(r[0],r[1])
        yield "the point is one of the polyline",some(M,i.v,lambda q:same(M,p,q))
        yield from extreme(M,i.v,p,DIRS[i.d])
ext_poly("closed","ext_cp",True); ext_poly("open","ext_op",False)
# ------------------------------------------------------------ C25
def inbox(M,b,p): return M.AND(M.le(b[0],p[0]),M.le(p[0],b[2]),M.le(b[1],p[1]),M.le(p[1],b[3]))
def isbox(M,b,v):
    if not isinstance(v,(Seq,USeq)): v=Seq(list(v))
    yield from each(M,v,"contains every point",lambda p:inbox(M,b,p))
    for k in range(4): yield "each side is touched",some(M,v,lambda p:M.eq(b[k],p[k%2]))
def thr(M,a,b): return M.lt(M.abs(a-b),M.q(*NULLD))
def flat(M,v):
    """no rectangle of positive width and height (up to the threshold): positive form"""
    if not isinstance(v,(Seq,USeq)): v=Seq(list(v))
    return M.OR(*[al(M,v,lambda p:al(M,v,lambda q:thr(M,p[c],q[c]))) for c in(0,1)])
def flat1(M,v): return M.OR(*[al(M,v,lambda p:thr(M,p[c],v[0][c])) for c in(0,1)])
def unflat(M,v):
    """two points differ in x, two points differ in y"""
    if not isinstance(v,(Seq,USeq)): v=Seq(list(v))
    return M.AND(*[some(M,v,lambda p:some(M,v,lambda q:M.ne(p[c],q[c]))) for c in(0,1)])
def bbpts(nm,fn,sizes,closed,**kw):
    @contract("C25."+nm,fn,"v[]:*,"+sizes,feas=60,**kw)
    def _(M,i,r):
        inv=invalid(M,i.v,closed) if closed is not None else False
        if r.threw: yield "throws only for no or refused points, or if all of them share a coordinate",M.OR(M.eq(i.n,0),inv,flat(M,i.v)); return
        yield "no points throw",M.gt(i.n,0)
        yield "points sharing a coordinate throw",unflat(M,i.v)
        yield from isbox(M,[r[k] for k in range(4)],i.v)
bbpts("points","bb_pts","1,2,3,4",None)
bbpts("closed","bb_cp","2,3,4",True); bbpts("open","bb_op","2,3,4",False)
@contract("C25.segments","bb_segs","v[]:2,4",cases=[dict(n=2,o=o,o2=0) for o in range(3)]+[dict(n=4,o=o,o2=p) for o in range(3) for p in range(3)],pre=lambda M,i:[(M.lt,M.eq,M.gt)[o](i.v[k-1][0],i.v[k][0]) for o,k in((i.o,1),(i.o2,3))[:i.n//2]],feas=60,deadline=100,bounded="1 or 2 segments")
def _(M,i,r):
    if r.threw: yield "throws only for a segment of identical points, or if all the points share a coordinate",M.OR(M.eq(i.n,0),M.exists(0,half(M,i.n),lambda k:close(M,i.v[2*k],i.v[2*k+1])),flat1(M,i.v)); return
    yield "no segments throw",M.gt(i.n,0)
    yield "points sharing a coordinate throw",unflat(M,i.v)
    yield from isbox(M,[r[k] for k in range(4)],i.v)
def half(M,n): return n*M.q(1,2) if isinstance(n,Rat) else n//2
@contract("C25.rectangles","bb_rects","v[]:2,4",feas=60,deadline=100,bounded="1 or 2 rectangles",opts=dict(handlers=[itemax]))
def _(M,i,r):
    pr=[(i.v[2*k],i.v[2*k+1]) for k in range(i.n//2)]
    if r.threw: yield "throws only for corners that share a coordinate",M.OR(*[flat(M,p) for p in pr]); return
    yield from isbox(M,[r[k] for k in range(4)],i.v)
@contract("C25.circles","bb_cirs","v[]:1,2,3 r0>0 r1>0 r2>0",feas=60,deadline=100,bounded="up to 3 circles")
def _(M,i,r):
    R=[i.r0,i.r1,i.r2][:i.n]; T=M.q(*NULLD)
    if r.threw: yield "throws only for a radius not above the threshold",M.OR(*[M.lt(x,T) for x in R]); return
    b=[r[k] for k in range(4)]
    for p,x in zip(i.v,R): yield "contains every circle",M.AND(M.le(b[0],p[0]-x),M.le(p[0]+x,b[2]),M.le(b[1],p[1]-x),M.le(p[1]+x,b[3]))
    yield "each side is touched",M.AND(*[M.OR(*[M.eq(b[k],p[k%2]+(x if k>1 else -x)) for p,x in zip(i.v,R)]) for k in range(4)])
# ------------------------------------------------------------ C27
def dist(M,p,q): return M.hyp(p[0]-q[0],p[1]-q[1])
def nf(nm,fn,which):
    @contract("C27."+nm,fn,"v[]:*,0,1,2,3,4 qx qy"+(" which:0,1" if len(which)>1 else ""),inp=lambda M,i:[i.qx,i.qy],feas=60,deadline=120,opts=dict(sqcmp=True))
    def _(M,i,r):
        q=(i.qx,i.qy)
        if r.threw: yield "throws only for less than two points",M.lt(i.n,2); return
        yield "less than two points throw",M.ge(i.n,2)
        for k,far_ in enumerate(which):
            if len(which)>1 and k!=i.which: continue
            ok,p=el(M,i.v,r[k])
            yield "the index is a position of the container",ok
            if p is None: continue
            yield from each(M,i.v,"an element different from the query point, if there is one",lambda x:M.OR(close(M,x,q),far(M,p,q)))
            yield from each(M,i.v,"no other such element beats it",lambda x:M.OR(close(M,x,q),M.le(dist(M,x,q),dist(M,p,q)) if far_ else M.le(dist(M,p,q),dist(M,x,q))))
nf("nearest","near_",[False]); nf("farthest","far_",[True]); nf("both","nearfar",[False,True])
@contract("C27.closest","closest","v[]:4",cases=[dict(n=n,k=k) for n,k in((4,2),(5,2),(5,3))],inp=lambda M,i:[i.k],feas=60,deadline=120,opts=dict(sqcmp=True))
def _(M,i,r):
    n,k=i.n,i.k
    sub=lambda lo,hi,closed=False: SubSeq(i.v,lo,hi)
    a,b=sub(0,k),sub(k,n)
    if r.threw: yield "throws only for points refused by the polylines",M.OR(invalid(M,a,False),invalid(M,b,False)); return
    ok,p=el(M,a,r[4]); ok2,q=el(M,b,r[5])
    yield "the indexes are positions of the polylines",M.AND(ok,ok2)
    if p is None or q is None: return
    yield "the points are those of the indexes",M.AND(same(M,(r[0],r[1]),p),same(M,(r[2],r[3]),q))
    yield "the distance is that of the points",M.eq(r[6],dist(M,p,q))
    yield "no pair is closer",al(M,a,lambda x: al(M,b,lambda y: M.le(dist(M,p,q),dist(M,x,y))))
# ------------------------------------------------------------ C21
def length_poly(nm,fn,closed):
    @contract("C21."+nm,fn,"v[]:*,2,3,4",feas=60,deadline=90,opts=dict(handlers=[ptnorm,symorder]))
    def _(M,i,r):
        v,n=i.v,i.n
        if r.threw: yield "throws only for points refused by the polyline",invalid(M,v,closed); return
        yield "as many points as given",M.eq(r[0],n)
        yield "number of segments",M.OR(M.AND(M.lt(n,2),M.eq(r[1],0)),M.AND(M.ge(n,2),M.eq(r[1],n if closed else n-1)))
        if not M.sym and n<2 or not isinstance(n,Rat) and n<2:
            yield "no point: length 0",M.eq(r[2],0); return
        s=M.sum(0,n-1,lambda k:dist(M,v[k],v[k+1]))
        if closed: s=s+dist(M,v[n-1],v[0])
        for q in(2,3): yield "length is the sum of the distances of consecutive points",M.OR(M.lt(n,2),M.eq(r[q],s))
length_poly("length_closed","len_cp",True); length_poly("length_open","len_op",False)
def lex(M,p,q): return M.OR(M.lts(p[0],q[0]),M.AND(M.eq(p[0],q[0]),M.le(p[1],q[1])))
def joins(M,s,p,q): return M.OR(M.AND(lex(M,p,q),same(M,s[:2],p),same(M,s[2:],q)),M.AND(lex(M,q,p),same(M,s[:2],q),same(M,s[2:],p)))
def seg_poly(nm,fn,closed,o):
    """one segment of the polyline (o: from the vector of segments)"""
    @contract("C21."+nm,fn,"v[]:*,2,3,4 t:<n",inp=lambda M,i:[i.t],feas=60,deadline=60)
    def _(M,i,r):
        v,n,t=i.v,i.n,i.t
        if r.threw: yield "throws only for points refused by the polyline or a position past the last segment",M.OR(invalid(M,v,closed),M.ge(t,n-1) if not closed else M.eq(n,1)); return
        if o: yield "number of segments",M.AND(M.eq(r[0],n if closed else n-1),M.eq(r[1],n if closed else n-1))
        if o and not closed:
            yield "no such segment only past the last one",M.OR(M.ne(r.ret,1),M.eq(t,n-1))
            if not M.sym and r.ret==1 or M.sym and r.ret==1: return
        R=lambda k:[r[o+k+j] for j in range(4)]
        last=M.AND(M.eq(t,n-1)); a=v[t]
        if M.sym:
            for lab,g,b in(("segment i joins point i to the next",M.lt(t,n-1),v[t+1]),)+((("the last segment joins the last point to the first",M.eq(t,n-1),v[0]),) if closed else ()):
                yield lab,M.OR(M.NOT(g),M.AND(same(M,R(0)[:2],a),same(M,R(0)[2:],b)))
                yield lab,M.OR(M.NOT(g),joins(M,R(4),a,b))
        else:
            if t==n-1 and not closed: return
            b=v[(t+1)%n]
            yield "segment i joins point i to the next",M.AND(same(M,R(0)[:2],a),same(M,R(0)[2:],b)); yield "segment i joins point i to the next",joins(M,R(4),a,b)
        if not o: yield "point i",same(M,[r[8],r[9]],a)
seg_poly("segment_closed","seg_cp",True,0); seg_poly("segment_open","seg_op",False,0)
seg_poly("segments_closed","segs_cp",True,2); seg_poly("segments_open","segs_op",False,2)
# the polygon functions use the answer of segment intersections only through isSimple(), whatever it is: see anyhit
def shoelace2(M,v,g):
    """twice the shoelace sum of g times the cross product of consecutive points"""
    n=v.n; cr=lambda p,q: (p[0]*q[1]-q[0]*p[1])*g(p,q)
    return M.sum(0,n-1,lambda k:cr(v[k],v[k+1]))+cr(v[n-1],v[0])
one=lambda p,q:1
@contract("C21.area_closed","area_cp","v[]:*,2,3,4",feas=60,deadline=120,opts=dict(handlers=[anyhit]))
def _(M,i,r):
    v,n=i.v,i.n
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,v,True); return
    yield "simple or not; at least 3 points",M.OR(M.eq(r[0],0),M.AND(M.eq(r[0],1),M.ge(n,3)))
    if not isinstance(n,Rat) and n<3:
        for q in(1,2): yield "no area",M.eq(r[q],0)
        return
    a=M.abs(shoelace2(M,v,one))*M.q(1,2)
    for q in(1,2): yield "area is the absolute shoelace sum, 0 if not simple",M.OR(M.AND(M.eq(r[0],0),M.eq(r[q],0)),M.AND(M.eq(r[0],1),M.eq(r[q],a)))
@contract("C35.simple","simple_cp","v[]:3,4,5,6,7",bounded="3 to 7 points",feas=60,deadline=120,opts=dict(handlers=[ptnorm,symorder,anyorder,sumhit]),nout=4)
def _(M,i,r):
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,True); return
    yield "simple exactly when no two segments that are not neighbours meet",M.eq(r[0],1-r[1])
def turn(v,k): a,b,c=v[k-1],v[k],v[(k+1)%len(v)]; return (b[0]-a[0])*(c[1]-b[1])-(b[1]-a[1])*(c[0]-b[0])
@contract("C35.convex","convex_cp","v[]:3,4,5",bounded="3 to 5 points",feas=60,deadline=120,opts=dict(handlers=[ptnorm,symorder,anyorder,sumhit]),nout=4)
def _(M,i,r):
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,True); return
    n=int(i.n); v=[(i.v[k][0],i.v[k][1]) for k in range(n)]; t=[turn(v,k) for k in range(n)]
    yield "convex exactly when simple, without turns to both sides",M.OR(M.AND(M.eq(r[0],0),M.OR(M.eq(r[1],0),M.AND(M.OR(*[M.gt(x,0) for x in t]),M.OR(*[M.lt(x,0) for x in t])))),
        M.AND(M.eq(r[0],1),M.eq(r[1],1),M.OR(M.AND(*[M.ge(x,0) for x in t]),M.AND(*[M.le(x,0) for x in t]))))
    yield "the free function agrees",M.eq(r[2],r[0])
@contract("C35.open","open_op","v[]:3",bounded="3 points",feas=60,nout=4)
def _(M,i,r):
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,False); return
    yield "an open polyline is neither simple nor convex",M.AND(M.eq(r[0],0),M.eq(r[1],0),M.eq(r[2],0))
@contract("C21.area_open","area_op","v[]:*,2,3,4",feas=60,deadline=60)
def _(M,i,r):
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,False); return
    yield "an open polyline is not a polygon and has no area",M.AND(M.eq(r[0],0),M.eq(r[1],0))
@contract("C21.centroid","centroid","v[]:*>=3,3,4",pre=lambda M,i:[M.ne(shoelace2(M,i.v,one),0)],feas=60,deadline=120,opts=dict(handlers=[anyhit]))
def _(M,i,r):
    v=i.v
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,v,True); return
    yield "throws if the polygon is not simple, and only then",M.OR(M.eq(r.ret,0),M.eq(r.ret,1))
    if M.sym and r.ret==0 or not M.sym and r.ret!=1: return
    for c in(0,1): yield "shoelace centroid",M.eq(r[c]*3*shoelace2(M,v,one),shoelace2(M,v,lambda p,q:p[c]+q[c]))
