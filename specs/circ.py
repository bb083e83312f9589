from core import *
TU="circ"
NULLD=(1,10**10); ORTHO=(1,10**14)
def d2(M,a,b): return M.hyp(b[0]-a[0],b[1]-a[1])
def sq(M,a,b): return (b[0]-a[0])*(b[0]-a[0])+(b[1]-a[1])*(b[1]-a[1])
def same(M,p,q): return M.AND(M.eq(p[0],q[0]),M.eq(p[1],q[1]))
def le_xy(M,p,q): return M.OR(M.lts(p[0],q[0]),M.AND(M.eq(p[0],q[0]),M.le(p[1],q[1])))
def P1(i): return (i.x1,i.y1)
def P2(i): return (i.x2,i.y2)
def P3(i): return (i.x3,i.y3)
def nothrow(r): return ("does not throw",not r.threw)
# ------------------------------------------------------------ C12
@contract("C12.two_points","cir2","m:0,1 x1 y1 x2 y2")
def _(M,i,r):
    eq=M.lt(d2(M,P1(i),P2(i)),M.q(*NULLD))
    if r.threw: yield "throws only for identical points",eq; return
    yield "identical points throw",M.NOT(eq)
    c=(r[0],r[1])
    yield "the centre is the middle",same(M,(r[0]*2,r[1]*2),(i.x1+i.x2,i.y1+i.y2))
    yield "the radius is half the distance",M.eq(r[2]*2,d2(M,P1(i),P2(i)))
    for p in (P1(i),P2(i)): yield "passes through the points",M.eq(sq(M,c,p),r[2]*r[2])
def area2(M,p,q,s): return (q[0]-p[0])*(s[1]-p[1])-(q[1]-p[1])*(s[0]-p[0])
def par2(M,p,q,s):
    """directions p-q and p-s parallel up to the threshold"""
    ux,uy,vx,vy=q[0]-p[0],q[1]-p[1],s[0]-p[0],s[1]-p[1]
    return M.lt(M.acos(M.abs(ux*vx+uy*vy)/(M.hyp(ux,uy)*M.hyp(vx,vy))),M.q(1,1000))
def nearly(M,a,b,c,strict=True):
    """collinear up to the thresholds"""
    ar=M.abs(area2(M,a,b,c))
    return M.OR(*[M.lt(d2(M,p,q),M.q(*NULLD)) for p,q in((a,b),(a,c),(b,c))],*[M.lt(ar/d2(M,p,q),M.q(*NULLD)) for p,q in((a,b),(a,c),(b,c))])
@contract("C12.collinear","collinear","x1 y1 x2 y2 x3 y3")
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b,c=P1(i),P2(i),P3(i)
    if r.ret: yield "reported collinear only if nearly so",nearly(M,a,b,c)
    else: yield "collinear points are reported",M.ne(area2(M,a,b,c),0)
TRI=lambda M,k,a,b: [M.lt(a,b),M.gt(a,b),M.eq(a,b)][int(k)]     # the three cases are all cases
@contract("C12.three_points","cir3","m:0,1,2 o:0,1,2 p:0,1,2 x1 y1 x2 y2 x3 y3",inp=lambda M,i:[i.m,i.x1,i.y1,i.x2,i.y2,i.x3,i.y3],pre=lambda M,i:[TRI(M,i.o,i.x1,i.x2),TRI(M,i.p,i.x1,i.x3)],deadline=150,feas=30)
def _(M,i,r):
    a,b,c=P1(i),P2(i),P3(i)
    if r.threw:
        yield "throws only for (nearly) collinear points",M.OR(nearly(M,a,b,c),par2(M,a,b,c),par2(M,b,a,c),par2(M,c,a,b)); return
    yield "collinear points throw",M.ne(area2(M,a,b,c),0)
    o=(r[0],r[1])
    yield "the radius is not negative",M.ge(r[2],0)
    for p in (a,b,c): yield "passes through the points",M.eq(sq(M,o,p),r[2]*r[2])
@contract("C12.make","cir_make","m:0,1,2,3,4,5 x y r")
def _(M,i,r):
    small=M.lt(i.r,M.q(*NULLD))
    if r.threw: yield "throws only for a radius not above the threshold",small; return
    yield "a radius not above the threshold throws",M.NOT(small)
    yield "centre and radius are the given ones",M.AND(same(M,(r[0],r[1]),(i.x,i.y)),M.eq(r[2],i.r),same(M,(r[7],r[8]),(i.x,i.y)))
    for k in(3,5): yield "area of the disc",M.eq(r[k],M.pi*i.r*i.r)
    for k in(4,6): yield "perimeter",M.eq(r[k],2*M.pi*i.r)
RP=lambda M,*rs: [M.ge(x,M.q(*NULLD)) for x in rs]
@contract("C12.eq","cir_eq","x1 y1 r1>0 x2 y2 r2>0",pre=lambda M,i:RP(M,i.r1,i.r2))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "symmetric",M.IFF(M.flag(r.ret),M.eq(r[0],1))
    yield "!= is the negation",M.eq(r[1],1-r[0])
    yield "same centre and radius",M.IFF(M.flag(r.ret),M.AND(M.eq(i.r1,i.r2),M.lt(d2(M,P1(i),P2(i)),M.q(*NULLD))))
# ------------------------------------------------------------ C13
@contract("C13.line","cir_line","cx cy r>0 a b c",pre=lambda M,i:RP(M,i.r)+[M.gt(M.hyp(i.a,i.b),M.q(1,10**10))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    h=M.hyp(i.a,i.b); d=M.abs(i.a*i.cx+i.b*i.cy+i.c)/h
    yield "reported exactly when the distance of the centre is at most the radius",M.IFF(M.flag(r.ret),M.le(d,i.r))
    yield "whichever is asked",M.AND(M.eq(r[0],r[1]),M.eq(r[0],r[2]))
    if r.ret:
        for k in (3,5,7,9):
            yield "on the line",M.eq(i.a*r[k]+i.b*r[k+1]+i.c,0)
            yield "on the circle",M.eq(sq(M,(r[k],r[k+1]),(i.cx,i.cy)),i.r*i.r)
        yield "both ends of the chord",M.eq((r[3]+r[5]-2*i.cx)*i.b,(r[4]+r[6]-2*i.cy)*i.a)
        yield "in increasing order",le_xy(M,r[3:5],r[5:7])
        yield "in increasing order (other operand)",le_xy(M,r[7:9],r[9:11])
@contract("C13.circles","cir_cir","x1 y1 r1>0 ux uy r2>0",inp=lambda M,i:[i.x1,i.y1,i.r1,i.x1+i.ux,i.y1+i.uy,i.r2],pre=lambda M,i:RP(M,i.r1,i.r2),deadline=90)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    d=M.hyp(i.ux,i.uy); P2=(i.x1+i.ux,i.y1+i.uy); eq=M.AND(M.eq(i.r1,i.r2),M.lt(d,M.q(*NULLD)))
    yield "reported exactly when the distance is between difference and sum of the radii (equal circles excepted)",M.IFF(M.flag(r.ret),M.AND(M.NOT(eq),M.le(d,i.r1+i.r2),M.ge(d,M.abs(i.r1-i.r2))))
    yield "symmetric",M.eq(r[0],r[1])
    n=int(r[0].const()) if M.sym else int(r[0])
    yield "none, one or two points",n in(0,1,2) and (n>0)==bool(r.ret)
    for k0 in (3,7):
        for j in range(n):
            p=(r[k0+2*j],r[k0+2*j+1])
            yield "on the first circle",M.eq(sq(M,p,P1(i)),i.r1*i.r1)
            yield "on the second circle",M.eq(sq(M,p,P2),i.r2*i.r2)
        if n==2:
            p,q=r[k0:k0+2],r[k0+2:k0+4]
            yield "two different points",M.OR(M.ne(p[0],q[0]),M.ne(p[1],q[1]))
            yield "in increasing order",le_xy(M,p,q)
    if n==1:
        s=i.r1*i.r1-i.r2*i.r2+d*d
        yield "a single point only if tangent",M.lt((4*d*d*i.r1*i.r1-s*s)/(d*d),M.q(1,10**20))
# a segment F+s u .. F+t u of a line at distance |k||u| of the centre C = F + k u^, half chord m|u|
def chord(M,i):
    F=(i.x,i.y); c=(i.x-i.k*i.uy,i.y+i.k*i.ux)
    return F,c,(M.sqrt(i.k*i.k+i.m*i.m)*M.hyp(i.ux,i.uy) if i.g<5 else i.m)
def chord_in(M,i):
    F,c,r=chord(M,i)
    return [F[0]+i.s*i.ux,F[1]+i.s*i.uy,F[0]+i.t*i.ux,F[1]+i.t*i.uy,c[0],c[1],r]
def chord_pre(M,i):
    F,c,r=chord(M,i); L=M.hyp(i.ux,i.uy)
    g=M.q(1,10**6)
    h=[TRI(M,i.o,0,i.ux)]+([TRI(M,i.v,0,i.uy)] if i.o==2 else [])+[M.gt(L,g),M.ge(r,M.q(*NULLD)),M.gt(M.abs(i.t-i.s)*L,g)]
    if i.g==5: return h+[M.gt(M.abs(i.k)*L,r+g)]
    h.append(M.gt(i.m*L,g))
    far=lambda p: M.gt(M.abs(M.hyp(p[0]-c[0],p[1]-c[1])-r),g)     # the end points are not on the circle
    h+=[far((F[0]+w*i.ux,F[1]+w*i.uy)) for w in(i.s,i.t)]
    inn=lambda x: [M.gt(i.m-x,0),M.gt(i.m+x,0)]
    if i.g==0: return h+inn(i.s)+inn(i.t)
    if i.g==1: return h+inn(i.s)+[M.gt(i.t,i.m),M.gt(i.t+i.m,0)]
    if i.g==2: return h+[M.gt(i.s,i.m),M.gt(i.s+i.m,0)]+inn(i.t)
    if i.g==3: return h+[M.gt(-i.s,i.m),M.gt(i.t,i.m),M.lt(i.s-i.m,0),M.gt(i.t+i.m,0)]
    return h+[M.gt(i.s,i.m),M.gt(i.t,i.m),M.gt(i.s+i.m,0),M.gt(i.t+i.m,0)]
@contract("C13.segment","seg_cir","g:0,1,2,3,4,5 o:0,1 v:0 x y ux uy k m>0 s t",inp=chord_in,pre=chord_pre,
  opts=dict(sgnsplit=True),cases=[dict(g=g,o=o,v=v) for g in range(6) for o,v in((0,0),(1,0),(2,0),(2,1))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    n={0:0,1:1,2:1,3:2,4:0,5:0}[i.g]
    yield "as many points as the segment has on the circle",M.AND(M.eq(r[0],n),M.eq(r[1],1 if n else 0))
    q=[(i.x+w*i.m*i.ux,i.y+w*i.m*i.uy) for w in(1,-1)]
    if n==1: yield "the point where the segment crosses the circle",same(M,r[2:4],q[0])
    if n==2:
        yield "the two points where the segment crosses the circle",M.OR(M.AND(same(M,r[2:4],q[0]),same(M,r[4:6],q[1])),M.AND(same(M,r[2:4],q[1]),same(M,r[4:6],q[0])))
        yield "in increasing order",le_xy(M,r[2:4],r[4:6])
# ------------------------------------------------------------ C14 / C17
@contract("C14.point","pt_in_cir","cx cy r>0 x y",pre=lambda M,i:RP(M,i.r))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=M.lt(M.hyp(i.x-i.cx,i.y-i.cy),i.r)
    yield "inside exactly when the distance to the centre is below the radius",M.IFF(M.flag(r.ret),e)
    yield "same from centre and radius",M.IFF(M.eq(r[0],1),e)
def incirc(M,i,p): return M.lt(M.hyp(p[0]-i.cx,p[1]-i.cy),i.r)
@contract("C14.segment","seg_in_cir","cx cy r>0 x1 y1 x2 y2",pre=lambda M,i:RP(M,i.r)+[M.gt(d2(M,P1(i),P2(i)),M.q(1,10**9))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=M.AND(incirc(M,i,P1(i)),incirc(M,i,P2(i)))   # a disc is convex
    yield "inside exactly when both end points are",M.IFF(M.flag(r.ret),e)
    yield "same for an oriented segment",M.IFF(M.eq(r[0],1),e)
RECT=lambda M,x1,y1,x2,y2: [M.gt(M.abs(x2-x1),M.q(1,10**9)),M.gt(M.abs(y2-y1),M.q(1,10**9))]
R1=lambda M,i: RECT(M,i.x1,i.y1,i.x2,i.y2)
@contract("C14.rect","rect_in_cir","cx cy r>0 x1 y1 x2 y2",pre=lambda M,i:RP(M,i.r)+R1(M,i))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=M.AND(*[incirc(M,i,(x,y)) for x in(i.x1,i.x2) for y in(i.y1,i.y2)])
    yield "inside exactly when the four corners are",M.IFF(M.flag(r.ret),e)
@contract("C14.circle","cir_in_cir","cx cy r>0 x y s>0",pre=lambda M,i:RP(M,i.r,i.s))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "inside exactly when distance of centres plus radius is below the radius",M.IFF(M.flag(r.ret),M.lt(M.hyp(i.x-i.cx,i.y-i.cy)+i.s,i.r))
@contract("C14.circle_rect","cir_in_rect","cx cy r>0 x1 y1 x2 y2",pre=lambda M,i:RP(M,i.r)+R1(M,i))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=M.AND(M.gt(i.cx-i.r,M.min(i.x1,i.x2)),M.lt(i.cx+i.r,M.max(i.x1,i.x2)),M.gt(i.cy-i.r,M.min(i.y1,i.y2)),M.lt(i.cy+i.r,M.max(i.y1,i.y2)))
    yield "inside exactly when strictly between the four sides",M.IFF(M.flag(r.ret),e)
    yield "same from two points",M.IFF(M.eq(r[0],1),e)
def inrect(M,p,x1,y1,x2,y2): return M.AND(M.gt(p[0],M.min(x1,x2)),M.lt(p[0],M.max(x1,x2)),M.gt(p[1],M.min(y1,y2)),M.lt(p[1],M.max(y1,y2)))
@contract("C17.point","pt_in_rect","x y x1 y1 x2 y2",pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=inrect(M,(i.x,i.y),i.x1,i.y1,i.x2,i.y2)
    yield "inside exactly when strictly between the corners",M.IFF(M.flag(r.ret),e)
    yield "same from two points",M.IFF(M.eq(r[0],1),e)
@contract("C17.segment","seg_in_rect","x3 y3 x4 y4 x1 y1 x2 y2",pre=lambda M,i:R1(M,i)+[M.gt(M.hyp(i.x4-i.x3,i.y4-i.y3),M.q(1,10**9))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    e=M.AND(*[inrect(M,p,i.x1,i.y1,i.x2,i.y2) for p in((i.x3,i.y3),(i.x4,i.y4))])
    yield "inside exactly when both end points are",M.IFF(M.flag(r.ret),e)
    yield "same for an oriented segment",M.IFF(M.eq(r[0],1),e)
@contract("C17.rect","rect_in_rect","x3 y3 x4 y4 x1 y1 x2 y2",pre=lambda M,i:R1(M,i)+RECT(M,i.x3,i.y3,i.x4,i.y4))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "inside exactly when both corners are",M.IFF(M.flag(r.ret),M.AND(*[inrect(M,p,i.x1,i.y1,i.x2,i.y2) for p in((i.x3,i.y3),(i.x4,i.y4))]))
# ------------------------------------------------------------ C15
def corners(M,i): return (M.min(i.x1,i.x2),M.min(i.y1,i.y2),M.max(i.x1,i.x2),M.max(i.y1,i.y2))
def is_rect(M,r,k,c): return M.AND(*[M.eq(r[k+j],c[j]) for j in range(4)])
R4="x1 y1 x2 y2"
@contract("C15.make","rect_make","m:0,1,2,3,4,5 "+R4)
def _(M,i,r):
    flat=M.OR(M.lt(M.abs(i.x1-i.x2),M.q(*ORTHO)),M.lt(M.abs(i.y1-i.y2),M.q(*ORTHO)))
    if r.threw: yield "throws only if a coordinate is shared",flat; return
    yield "corners sharing a coordinate throw",M.NOT(flat)
    yield "lower-left corner first, upper-right second",is_rect(M,r,0,corners(M,i))
@contract("C15.centre_size","rect_wh","x y w h")
def _(M,i,r):
    flat=M.OR(M.lt(M.abs(i.w),M.q(*ORTHO)),M.lt(M.abs(i.h),M.q(*ORTHO)))
    if r.threw: yield "throws only if a coordinate is shared",flat; return
    yield "corners sharing a coordinate throw",M.NOT(flat)
    w,h=M.abs(i.w)/M.q(2),M.abs(i.h)/M.q(2)
    yield "corners at half width and height of the centre",is_rect(M,r,0,(i.x-w,i.y-h,i.x+w,i.y+h))
@contract("C15.set_fail","rect_set_fail",R4+" x3 y3 x4 y4",pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    flat=M.OR(M.lt(M.abs(i.x3-i.x4),M.q(*ORTHO)),M.lt(M.abs(i.y3-i.y4),M.q(*ORTHO)))
    n=(M.min(i.x3,i.x4),M.min(i.y3,i.y4),M.max(i.x3,i.x4),M.max(i.y3,i.y4))
    yield "a refused set keeps the rectangle",M.IMP(flat,is_rect(M,r,0,corners(M,i)))
    yield "an accepted set replaces it",M.IMP(M.NOT(flat),is_rect(M,r,0,n))
@contract("C15.move","rect_move","m:0,1,2,3 "+R4+" u v",pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b,c,d=corners(M,i)
    if i.m<2: yield "both corners are translated",is_rect(M,r,0,(a+i.u,b+i.v,c+i.u,d+i.v))
    else: yield "lower-left corner at the target, same size",is_rect(M,r,0,(i.u,i.v,i.u+c-a,i.v+d-b))
@contract("C15.measures","rect_meas",R4,pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    w,h=M.abs(i.x1-i.x2),M.abs(i.y1-i.y2)
    yield "width",M.eq(r[0],w)
    yield "height",M.eq(r[1],h)
    for k in (2,6): yield "area",M.eq(r[k],w*h)
    for k in (3,7): yield "perimeter",M.eq(r[k],2*(w+h))
    for k in (4,8): yield "centre",same(M,(2*r[k],2*r[k+1]),(i.x1+i.x2,i.y1+i.y2))
@contract("C15.points","rect_pts",R4,pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b,c,d=corners(M,i)
    for k in (0,8):
        yield "the four corners, clockwise from the smallest",M.AND(*[M.eq(r[k+j],x) for j,x in enumerate((a,b,a,d,c,d,c,b))])
@contract("C15.segs","rect_segs",R4,pre=R1,nout=24)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b,c,d=corners(M,i)
    for k,s in enumerate(((a,b,a,d),(a,d,c,d),(c,b,c,d),(a,b,c,b))):
        yield "the four sides, clockwise",is_rect(M,r,4*k,s)
    yield "first diagonal",is_rect(M,r,16,(a,b,c,d))
    yield "second diagonal",is_rect(M,r,20,(a,d,c,b))
@contract("C15.derived","rect_derived",R4,pre=R1)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b,c,d=corners(M,i); w,h=c-a,d-b
    yield "extension",is_rect(M,r,0,(a-w,b-h,c+w,d+h))
    yield "bounding box",is_rect(M,r,4,(a,b,c,d))
    for k in(8,11): yield "the circles have the centre of the rectangle",same(M,(2*r[k],2*r[k+1]),(i.x1+i.x2,i.y1+i.y2))
    yield "the bounding circle passes through the corners",M.eq(2*r[10],M.hyp(w,h))
    yield "the inscribed circle touches the nearest sides",M.eq(2*r[13],M.min(w,h))
@contract("C15.eq","rect_eq",R4+" x3 y3 x4 y4",pre=lambda M,i:R1(M,i)+RECT(M,i.x3,i.y3,i.x4,i.y4))
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "symmetric",M.IFF(M.flag(r.ret),M.eq(r[0],1))
    yield "!= is the negation",M.eq(r[1],1-r[0])
    n=(M.min(i.x3,i.x4),M.min(i.y3,i.y4),M.max(i.x3,i.x4),M.max(i.y3,i.y4)); a=corners(M,i)
    yield "equal exactly when the corners are",M.IFF(M.flag(r.ret),M.AND(M.lt(d2(M,a[0:2],n[0:2]),M.q(*NULLD)),M.lt(d2(M,a[2:4],n[2:4]),M.q(*NULLD))))
