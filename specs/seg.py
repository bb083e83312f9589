from core import *
TU="seg"
NULLD=(1,10**10)
def d2(M,a,b): return M.hyp(b[0]-a[0],b[1]-a[1])
def distinct(M,*p): return [M.gt(d2(M,p[k],p[k+1]),M.q(1,10**6)) for k in range(0,len(p),2)]
def lt_xy(M,p,q): return M.OR(M.lts(p[0],q[0]),M.AND(M.eq(p[0],q[0]),M.lt(p[1],q[1])))
def cond(M,c,a,b): return M.AND(M.IMP(c,a),M.IMP(M.NOT(c),b))
def same(M,p,q): return M.AND(M.eq(p[0],q[0]),M.eq(p[1],q[1]))
def P1(i): return (i.x1,i.y1)
def P2(i): return (i.x2,i.y2)
def P3(i): return (i.x3,i.y3)
def P4(i): return (i.x4,i.y4)
S1="x1 y1 x2 y2"; S2="x3 y3 x4 y4"
PRE1=lambda M,i: distinct(M,P1(i),P2(i))
def ends(r,k=0): return (r[k],r[k+1]),(r[k+2],r[k+3])
def holds_ordered(M,a,b,p,q):
    """the segment (a,b) holds the points p and q, smallest first"""
    yield "the smallest point comes first",lt_xy(M,a,b)
    yield "holds exactly the given points",M.OR(M.AND(same(M,a,p),same(M,b,q)),M.AND(same(M,a,q),same(M,b,p)))
@contract("C08.seg_make","seg_make","m:0,1,2,3,4,5,6,7,8 "+S1,inp=lambda M,i:[i.m,i.x1,i.y1,i.x2,i.y2]+[M.q(0)]*4)
def _(M,i,r):
    eq=M.lt(d2(M,P1(i),P2(i)),M.q(*NULLD))
    if r.threw: yield "throws only for identical points",eq; return
    yield "identical points throw",M.NOT(eq)
    yield from holds_ordered(M,*ends(r),P1(i),P2(i))
@contract("C08.seg_set_fail","seg_set_fail",S1+" "+S2,pre=PRE1)
def _(M,i,r):
    """a set with identical points leaves the segment as it was"""
    yield "does not throw out of the handler",not r.threw
    if r.threw: return
    eq=M.lt(d2(M,P3(i),P4(i)),M.q(*NULLD)); a,b=ends(r)
    yield "the smallest point comes first",lt_xy(M,a,b)
    yield "a failed set keeps the points, a successful one takes the new ones",cond(M,eq,M.OR(M.AND(same(M,a,P1(i)),same(M,b,P2(i))),M.AND(same(M,a,P2(i)),same(M,b,P1(i)))),M.OR(M.AND(same(M,a,P3(i)),same(M,b,P4(i))),M.AND(same(M,a,P4(i)),same(M,b,P3(i)))))
@contract("C08.seg_move","seg_move","m:0,1,2,3 "+S1+" u v",pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    a,b=ends(r)
    yield "the smallest point comes first",lt_xy(M,a,b)
    if i.m<2: yield from holds_ordered(M,a,b,(i.x1+i.u,i.y1+i.v),(i.x2+i.u,i.y2+i.v))
    else:
        yield "the first point is at the target",same(M,a,(i.u,i.v))
        dx,dy=i.x2-i.x1,i.y2-i.y1
        yield "same vector between the points",M.OR(same(M,b,(i.u+dx,i.v+dy)),same(M,b,(i.u-dx,i.v-dy)))
@contract("C08.oseg_move","oseg_move","m:0,1,2,3 "+S1+" u v",pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    a,b=ends(r); o=P1(i) if i.m<2 else (M.q(0),M.q(0))
    yield "start point",same(M,a,(o[0]+i.u,o[1]+i.v))
    yield "same vector",same(M,b,(o[0]+i.u+i.x2-i.x1,o[1]+i.v+i.y2-i.y1)) if i.m>=2 else same(M,b,(i.x2+i.u,i.y2+i.v))
@contract("C08.oseg_make","oseg_make","m:0,1,2,3,4 "+S1)
def _(M,i,r):
    eq=M.lt(d2(M,P1(i),P2(i)),M.q(*NULLD))
    if r.threw: yield "throws only for identical points",eq; return
    yield "identical points throw",M.NOT(eq)
    a,b=ends(r)
    yield "the points are in the given order",M.AND(same(M,a,P1(i)),same(M,b,P2(i)))
@contract("C08.oseg_rev","oseg_rev",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    a,b=ends(r)
    yield "the minus operator gives the reversed segment",M.AND(same(M,a,P2(i)),same(M,b,P1(i)))
PRE2=lambda M,i: distinct(M,P1(i),P2(i),P3(i),P4(i))
def near(M,p,q): return M.lt(d2(M,p,q),M.q(*NULLD))
@contract("C08.seg_eq","seg_eq",S1+" "+S2,pre=PRE2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "symmetric",M.IFF(M.flag(r.ret),M.eq(r[0],1))
    yield "!= is the negation",M.eq(r[1],1-r[0])
    yield "equal segments have the same points",M.IMP(M.flag(r.ret),M.OR(M.AND(near(M,P1(i),P3(i)),near(M,P2(i),P4(i))),M.AND(near(M,P1(i),P4(i)),near(M,P2(i),P3(i)))))
    yield "the order of the points does not matter",M.IMP(M.OR(M.AND(same(M,P1(i),P3(i)),same(M,P2(i),P4(i))),M.AND(same(M,P1(i),P4(i)),same(M,P2(i),P3(i)))),M.flag(r.ret))
@contract("C08.oseg_eq","oseg_eq",S1+" "+S2,pre=PRE2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "symmetric",M.IFF(M.flag(r.ret),M.eq(r[0],1))
    yield "!= is the negation",M.eq(r[1],1-r[0])
    yield "equal exactly when the points are, in order",M.IFF(M.flag(r.ret),M.AND(near(M,P1(i),P3(i)),near(M,P2(i),P4(i))))
# ------------------------------------------------------------ C09
@contract("C09.len","seg_len",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for k in range(3): yield "Euclidean length",M.eq(r[k],d2(M,P1(i),P2(i)))
@contract("C09.center","seg_center",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for k in (0,2,4): yield "the centre is the middle",same(M,(r[k]*2,r[k+1]*2),(i.x1+i.x2,i.y1+i.y2))
def mid(M,i): return ((i.x1+i.x2)/M.q(2),(i.y1+i.y2)/M.q(2))
@contract("C09.split","seg_split",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    m=mid(M,i)
    for p,q in ((P1(i),P2(i)),):
        a,b=ends(r); c,d=ends(r,4)
        yield "the halves are those of the segment",M.OR(M.AND(same(M,a,p),same(M,d,q)),M.AND(same(M,a,q),same(M,d,p)))
        yield "they share the centre",M.AND(same(M,b,m),same(M,c,m))
@contract("C09.osplit","oseg_split",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    m=mid(M,i); a,b=ends(r); c,d=ends(r,4)
    yield "the halves follow the direction",M.AND(same(M,a,P1(i)),same(M,b,m),same(M,c,m),same(M,d,P2(i)))
@contract("C09.point_at","oseg_at",S1+" t",pre=PRE1)
def _(M,i,r):
    if r.threw: yield "throws only for a negative distance",M.lt(i.t,0); return
    yield "a negative distance throws",M.ge(i.t,0)
    L=d2(M,P1(i),P2(i))
    yield "in the direction of the end (x)",M.eq((r[0]-i.x1)*L,i.t*(i.x2-i.x1))
    yield "in the direction of the end (y)",M.eq((r[1]-i.y1)*L,i.t*(i.y2-i.y1))
@contract("C09.osplit_at","oseg_splitd",S1+" t",pre=lambda M,i:PRE1(M,i)+[M.OR(M.le(i.t,0),M.ge(i.t,M.q(1,10**9))),M.OR(M.ge(i.t,d2(M,P1(i),P2(i))),M.le(i.t,d2(M,P1(i),P2(i))-M.q(1,10**9)))])
def _(M,i,r):
    L=d2(M,P1(i),P2(i))
    if r.threw: yield "throws only for a distance out of the segment",M.OR(M.le(i.t,0),M.ge(i.t,L)); return
    yield "a distance out of the segment throws",M.AND(M.gt(i.t,0),M.lt(i.t,L))
    a,b=ends(r); c,d=ends(r,4)
    yield "the parts follow the direction",M.AND(same(M,a,P1(i)),same(M,d,P2(i)),same(M,b,c))
    yield "split at the distance (x)",M.eq((b[0]-i.x1)*L,i.t*(i.x2-i.x1))
    yield "split at the distance (y)",M.eq((b[1]-i.y1)*L,i.t*(i.y2-i.y1))
@contract("C09.extended","seg_ext",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    a,b=ends(r); dx,dy=i.x2-i.x1,i.y2-i.y1
    p=(i.x1-dx,i.y1-dy); q=(i.x2+dx,i.y2+dy)
    yield "same line and centre, three times the length",M.OR(M.AND(same(M,a,p),same(M,b,q)),M.AND(same(M,a,q),same(M,b,p)))
@contract("C09.bisector","seg_bis",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    m=mid(M,i)
    for k in (0,3):
        yield "passes through the centre",M.eq(r[k]*m[0]+r[k+1]*m[1]+r[k+2],0)
        yield "perpendicular to the segment",M.eq(r[k]*(i.y2-i.y1)-r[k+1]*(i.x2-i.x1),0)
        yield "is a line",M.eq(r[k]*r[k]+r[k+1]*r[k+1],1)
def shift(M,i,s):
    """the segment moved by s*d along its left normal"""
    L=d2(M,P1(i),P2(i)); nx,ny=-(i.y2-i.y1)*i.d/L,(i.x2-i.x1)*i.d/L
    return (i.x1+nx*s,i.y1+ny*s),(i.x2+nx*s,i.y2+ny*s)
@contract("C09.oparallel","oseg_par",S1+" d",pre=lambda M,i:PRE1(M,i)+[M.OR(M.le(i.d,0),M.ge(i.d,M.q(1,10**9)))])
def _(M,i,r):
    if r.threw: yield "throws only for a null or negative distance",M.le(i.d,0); return
    yield "a null or negative distance throws",M.gt(i.d,0)
    for k,s in ((0,1),(4,-1)):
        a,b=ends(r,k); p,q=shift(M,i,M.q(s))
        yield ("first is the segment moved to the left","second is the segment moved to the right")[k//4],M.AND(same(M,a,p),same(M,b,q))
@contract("C09.parallel","seg_par",S1+" d",pre=PRE1)
def _(M,i,r):
    if r.threw: yield "throws only for a null or negative distance",M.le(i.d,0); return
    yield "a null or negative distance throws",M.gt(i.d,0)
    a,b=ends(r); c,d=ends(r,4); (p,q),(s,t)=shift(M,i,M.q(1)),shift(M,i,M.q(-1))
    def is_(a,b,p,q): return M.OR(M.AND(same(M,a,p),same(M,b,q)),M.AND(same(M,a,q),same(M,b,p)))
    yield "the two are the segment moved to both sides",M.OR(M.AND(is_(a,b,p,q),is_(c,d,s,t)),M.AND(is_(a,b,s,t),is_(c,d,p,q)))
@contract("C09.vector","oseg_vec",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "vector from start to end",same(M,(r[0],r[1]),(i.x2-i.x1,i.y2-i.y1))
@contract("C09.line","seg_line",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for k in (0,3):
        for p in (P1(i),P2(i)): yield "the supporting line contains the points",M.eq(r[k]*p[0]+r[k+1]*p[1]+r[k+2],0)
@contract("C09.orth","seg_orth",S1,pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    dx,dy=i.x2-i.x1,i.y2-i.y1
    for k in range(4):
        p=(r[2*k],r[2*k+1])
        yield "a corner of the square on an end point",M.OR(*[same(M,p,(e[0]-s*dy,e[1]+s*dx)) for e in (P1(i),P2(i)) for s in (M.q(1),M.q(-1))])
@contract("C09.angle","oseg_angle",S1+" "+S2,pre=PRE2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    ux,uy,vx,vy=i.x2-i.x1,i.y2-i.y1,i.x4-i.x3,i.y4-i.y3; n=M.hyp(ux,uy)*M.hyp(vx,vy)
    yield "cosine of the oriented angle",M.eq(M.cos(r[0])*n,ux*vx+uy*vy)
    yield "sine of the oriented angle",M.eq(M.sin(r[0])*n,ux*vy-uy*vx)
    yield "in [-pi,pi]",M.AND(M.ge(r[0],-M.pi),M.le(r[0],M.pi))
# ------------------------------------------------------------ C10
def seg_dist(M,a,b,p):
    """case and distance of point p and segment a,b"""
    dx,dy=b[0]-a[0],b[1]-a[1]; n=dx*dx+dy*dy; dot=(p[0]-a[0])*dx+(p[1]-a[1])*dy
    return dot,n
def dist_spec(M,i,a,b,r):
    p=P3(i); dx,dy=b[0]-a[0],b[1]-a[1]; n=dx*dx+dy*dy; dot=(p[0]-a[0])*dx+(p[1]-a[1])*dy
    cr=(p[0]-a[0])*dy-(p[1]-a[1])*dx
    yield "the reported case is where the minimum is reached",M.OR(M.AND(M.eq(r[1],-1),M.le(dot,0)),M.AND(M.eq(r[1],1),M.ge(dot,n)),M.AND(M.eq(r[1],0),M.ge(dot,0),M.le(dot,n)))
    yield "distance to the first point",M.IMP(M.eq(r[1],-1),M.eq(r[0],d2(M,a,p)))
    yield "distance to the second point",M.IMP(M.eq(r[1],1),M.eq(r[0],d2(M,b,p)))
    yield "distance to the inside of the segment",M.IMP(M.eq(r[1],0),M.eq(r[0]*r[0]*n,cr*cr))
    yield "distance is not negative",M.ge(r[0],0)
@contract("C10.seg_dist","seg_dist",S1+" x3 y3",pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield from dist_spec(M,i,(r[3],r[4]),(r[5],r[6]),r)
    yield "same distance from the point",M.eq(r[0],r[2])
@contract("C10.oseg_dist","oseg_dist",S1+" x3 y3",pre=PRE1)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield from dist_spec(M,i,P1(i),P2(i),r)
    yield "same without the optional output",M.eq(r[0],r[2])
@contract("C10.side","oseg_side",S1+" x3 y3",pre=lambda M,i:PRE1(M,i)+[M.OR(M.eq(d2(M,P1(i),P3(i)),0),M.ge(d2(M,P1(i),P3(i)),M.q(*NULLD))),M.OR(M.eq(d2(M,P2(i),P3(i)),0),M.ge(d2(M,P2(i),P3(i)),M.q(*NULLD)))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    c=(i.x2-i.x1)*(i.y3-i.y1)-(i.y2-i.y1)*(i.x3-i.x1)
    yield "Left, Right or Neither by the sign of the area", {1:M.gt(c,0),2:M.lt(c,0),0:M.eq(c,0)}.get(r.ret,False)
# ------------------------------------------------------------ C11
def X(M,i): return None
def par2(M,ux,uy,vx,vy,o=0):
    """directions parallel up to the threshold (o&1, o&2: ux, vx is null)"""
    if o==3: return M.lt(M.q(0),M.q(1))
    if o==1: return M.lt(M.acos(M.abs(vy)/M.hyp(vx,vy)),M.q(1,1000))
    if o==2: return M.lt(M.acos(M.abs(uy)/M.hyp(ux,uy)),M.q(1,1000))
    return M.lt(M.acos(M.abs(ux*vx+uy*vy)/(M.hyp(ux,uy)*M.hyp(vx,vy))),M.q(1,1000))
# A non-oriented segment does not depend on the order of the points it is built from (C08), so it is enough to build it in
# order: o&1, o&2 tell for each of the two whether it is vertical (smallest y first) or not (smallest x first).
def meet_uv(M,i):
    z=M.q(0); o=i.o
    return (z if o&1 else i.ux),i.uy,(z if o&2 else i.vx),i.vy
def meet_inp(M,i):
    # two segments through the point (x,y): from the parameters t in [0,1] on both
    ux,uy,vx,vy=meet_uv(M,i)
    return [i.x-i.t*ux,i.y-i.t*uy,i.x+(1-i.t)*ux,i.y+(1-i.t)*uy,i.x-i.s*vx,i.y-i.s*vy,i.x+(1-i.s)*vx,i.y+(1-i.s)*vy]
def ordered(M,o,ux,uy,vx,vy): return [M.gt(uy if o&1 else ux,0),M.gt(vy if o&2 else vx,0)]
def meet_pre(M,i):
    ux,uy,vx,vy=meet_uv(M,i); l=meet_inp(M,i)
    return ([] if i.k else ordered(M,i.o,ux,uy,vx,vy))+[M.gt(M.hyp(ux,uy),M.q(1,10**6)),M.gt(M.hyp(vx,vy),M.q(1,10**6)),M.ge(i.t,0),M.le(i.t,1),M.ge(i.s,0),M.le(i.s,1),M.NOT(par2(M,ux,uy,vx,vy,i.o)),
      # not equal up to the threshold (equal segments are documented not to intersect)
      M.OR(M.ge(d2(M,l[0:2],l[4:6]),M.q(*NULLD)),M.ge(d2(M,l[2:4],l[6:8]),M.q(*NULLD)))]
for _fn,_n,_o in (("seg_seg","seg_meet","o:0,1,2,3 k:0 "),("oseg_oseg","oseg_meet","o:0 k:1 ")):
    @contract("C11."+_n,_fn,_o+"x y ux uy t vx vy s",pre=meet_pre,inp=meet_inp)
    def _(M,i,r):
        """any two non parallel segments with a common point: they are reported, with that point"""
        yield "does not throw",not r.threw
        if r.threw: return
        yield "two segments with a common point intersect",M.flag(r.ret)
        yield "whichever is asked",M.eq(r[1],1)
        if r.ret:
            yield "the point is the common one",same(M,(r[2],r[3]),(i.x,i.y))
            yield "the point is the common one (other operand)",same(M,(r[4],r[5]),(i.x,i.y))
def tri(M,p,a,b):
    """the point is in the segment up to the null distance: the detour is below it"""
    return M.lt(M.abs(d2(M,p,a)+d2(M,p,b)-d2(M,a,b)),M.q(*NULLD))
def on2(M,p,a,b): return M.eq((p[0]-a[0])*(b[1]-a[1]),(p[1]-a[1])*(b[0]-a[0]))
def rep_pts(M,i):
    return P1(i),((i.x1 if i.o&1 else i.x2),i.y2),P3(i),((i.x3 if i.o&2 else i.x4),i.y4)
def rep_pre(M,i):
    p,q,s,t=rep_pts(M,i)
    return ([] if i.k else ordered(M,i.o,q[0]-p[0],q[1]-p[1],t[0]-s[0],t[1]-s[1]))+distinct(M,p,q,s,t)
for _fn,_n,_o in (("seg_seg","seg_reported","o:0,1,2,3 k:0 "),("oseg_oseg","oseg_reported","o:0 k:1 ")):
    @contract("C11."+_n,_fn,_o+S1+" "+S2,pre=rep_pre,inp=lambda M,i:[x for p in rep_pts(M,i) for x in p])
    def _(M,i,r):
        yield "does not throw",not r.threw
        if r.threw: return
        yield "whichever is asked",M.IFF(M.flag(r.ret),M.eq(r[1],1))
        p1,p2,p3,p4=rep_pts(M,i)
        if r.ret:
            for k in (2,4):
                p=(r[k],r[k+1])
                yield "the point is on the line of the first",on2(M,p,p1,p2)
                yield "the point is on the line of the second",on2(M,p,p3,p4)
                yield "the point is in the first",tri(M,p,p1,p2)
                yield "the point is in the second",tri(M,p,p3,p4)
            yield "parallel ones do not intersect",M.NOT(par2(M,p2[0]-p1[0],p2[1]-p1[1],p4[0]-p3[0],p4[1]-p3[1],i.o))
@contract("C11.line_meet","seg_line_i","x y ux uy t a b k!=0",pre=lambda M,i:[M.gt(M.hyp(i.ux,i.uy),M.q(1,10**6)),M.gt(M.hyp(i.a,i.b),M.q(1,10**10)),M.ge(i.t,0),M.le(i.t,1),M.NOT(par2(M,i.ux,i.uy,-i.b,i.a))],
  inp=lambda M,i:[i.x-i.t*i.ux,i.y-i.t*i.uy,i.x+(1-i.t)*i.ux,i.y+(1-i.t)*i.uy,i.a,i.b,-(i.a*i.x+i.b*i.y)])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "a segment and a line with a common point intersect",M.flag(r.ret)
    yield "whichever is asked",M.eq(r[1],1)
    if r.ret:
        yield "the point is the common one",same(M,(r[2],r[3]),(i.x,i.y))
        yield "the point is the common one (other operand)",same(M,(r[4],r[5]),(i.x,i.y))
@contract("C11.line_reported","seg_line_i",S1+" a b c",pre=lambda M,i:PRE1(M,i)+[M.gt(M.hyp(i.a,i.b),M.q(1,10**10))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "whichever is asked",M.IFF(M.flag(r.ret),M.eq(r[1],1))
    if r.ret:
        for k in (2,4):
            p=(r[k],r[k+1])
            yield "the point is on the line",M.eq(i.a*p[0]+i.b*p[1]+i.c,0)
            yield "the point is on the line of the segment",on2(M,p,P1(i),P2(i))
            yield "the point is in the segment",tri(M,p,P1(i),P2(i))
        yield "parallel ones do not intersect",M.NOT(par2(M,i.x2-i.x1,i.y2-i.y1,-i.b,i.a))
