from core import *
from poly import invalid,valid,same,lex,nothrow,NULLD
TU="move"
MV="m:0,1,2,3,4,5,6,7"
def target(M,i,p,ref):
    """where the point p of an object with that reference point goes"""
    return (p[0]+i.u,p[1]+i.v_) if i.m<4 else (p[0]-ref[0]+i.u,p[1]-ref[1]+i.v_)
def turned(M,i,p,ref=None):
    c=ref if i.w>=4 else (i.u,i.v_) if i.w>=2 else (M.q(0),M.q(0))
    x,y=p[0]-c[0],p[1]-c[1]
    x,y=((-y,x),(y,-x),(-x,-y),(-x,y),(x,-y))[i.m]
    return (x+c[0],y+c[1])
def poly(nm,fn,closed,vars_,f,lab):
    @contract("C24."+nm,fn,"v[]:*,2,3 t:<n "+vars_+" u v_",inp=lambda M,i:([i.w] if "w:" in vars_ else [])+[i.m,i.t,i.u,i.v_],feas=60,deadline=60,opts=dict(handlers=[ptnorm]))
    def _(M,i,r):
        v,n=i.v,i.n
        if r.threw: yield "throws only for points refused by the polyline",invalid(M,v,closed); return
        yield "as many points as given",M.AND(M.eq(r[0],n),M.eq(r[3],n))
        q=f(M,i,v[i.t],v[0])
        for k in(1,4): yield lab,same(M,(r[k],r[k+1]),q)
for _n,_c in(("cp",True),("op",False)):
    _w="closed" if _c else "open"
    poly("move_"+_w,"mv_"+_n,_c,MV,target,"each point is translated; moving puts the first point at the target")
    poly("turn_"+_w,"tn_"+_n,_c,"w:0,1,2,3,4,5 m:0,1,2,3,4",lambda M,i,p,ref:turned(M,i,p,ref),"each point is mapped by the quarter-turn, half-turn or mirror")
@contract("C24.point","mv_pt","m:0,1,2,3,4,5 x y u v_")
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "translated, or at the target",same(M,r,target(M,i,(i.x,i.y),(i.x,i.y)))
@contract("C24.normalised","pt_norm","x y w",pre=lambda M,i:[M.ge(M.abs(i.w),M.q(*NULLD))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    neg=M.lt(i.x,0)
    for k,a in enumerate((i.x,i.y,i.w)): yield "the values change sign if the first is negative (what ptnorm assumes)",M.OR(M.AND(neg,M.eq(r[k],-a)),M.AND(M.NOT(neg),M.eq(r[k],a)))
@contract("C24.point_homogeneous","mv_ptw","m:0,1,2,3,4,5 x y w!=0 u v_",pre=lambda M,i:[M.ge(M.abs(i.w),M.q(*NULLD))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "translated, or at the target",same(M,r,target(M,i,(i.x/i.w,i.y/i.w),(i.x/i.w,i.y/i.w)))
def p12(i): return (i.x1,i.y1),(i.x2,i.y2)
def distinct(M,i): return [M.ge(M.hyp(i.x1-i.x2,i.y1-i.y2),M.q(*NULLD))]
def order(o,M,a,b): return (M.lt(a[0],b[0]),M.gt(a[0],b[0]),M.AND(M.eq(a[0],b[0]),M.lt(a[1],b[1])),M.AND(M.eq(a[0],b[0]),M.gt(a[1],b[1])))[o]
@contract("C24.segment","mv_seg",MV+" o:0,1,2,3 x1 y1 x2 y2 u v_",pre=lambda M,i:distinct(M,i)+[order(i.o,M,*p12(i))],inp=lambda M,i:[i.m,i.x1,i.y1,i.x2,i.y2,i.u,i.v_])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b=p12(i) if i.o in(0,2) else p12(i)[::-1]
    yield "both points are translated; moving puts the first one at the target",M.AND(same(M,(r[0],r[1]),target(M,i,a,a)),same(M,(r[2],r[3]),target(M,i,b,a)))
@contract("C24.oriented_segment","mv_oseg",MV+" x1 y1 x2 y2 u v_",pre=distinct)
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b=p12(i)
    yield "both points are translated; moving puts the first one at the target",M.AND(same(M,(r[0],r[1]),target(M,i,a,a)),same(M,(r[2],r[3]),target(M,i,b,a)))
def flatpre(M,i): return [M.ge(M.abs(i.x1-i.x2),M.q(*NULLD)),M.ge(M.abs(i.y1-i.y2),M.q(*NULLD))]
def quad(M,i): return [(M.lt if i.o in(0,1) else M.gt)(i.x1,i.x2),(M.lt if i.o in(0,2) else M.gt)(i.y1,i.y2)]
def corners(i):
    x0,x1=(i.x1,i.x2) if i.o in(0,1) else (i.x2,i.x1); y0,y1=(i.y1,i.y2) if i.o in(0,2) else (i.y2,i.y1)
    return (x0,y0),(x1,y1)
@contract("C24.rectangle","mv_rect",MV+" o:0,1,2,3 x1 y1 x2 y2 u v_",pre=lambda M,i:flatpre(M,i)+quad(M,i),inp=lambda M,i:[i.m,i.x1,i.y1,i.x2,i.y2,i.u,i.v_])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b=corners(i)
    yield "both corners are translated; moving puts the lower left one at the target",M.AND(same(M,(r[0],r[1]),target(M,i,a,a)),same(M,(r[2],r[3]),target(M,i,b,a)))
@contract("C24.rectangle_turn","tn_rect","w:0,1,2,3 m:0,1,2,3,4 o:0,1,2,3 x1 y1 x2 y2 u v_",pre=lambda M,i:flatpre(M,i)+quad(M,i),inp=lambda M,i:[i.w,i.m,i.x1,i.y1,i.x2,i.y2,i.u,i.v_])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    a,b=[turned(M,i,p) for p in corners(i)]
    yield "the corners are the lower left and upper right of the images",M.AND(M.lt(r[0],r[2]),M.lt(r[1],r[3]))
    yield "the corners are the images of the corners",M.AND(*[M.OR(M.AND(M.eq(r[k],a[k]),M.eq(r[k+2],b[k])),M.AND(M.eq(r[k],b[k]),M.eq(r[k+2],a[k]))) for k in(0,1)])
@contract("C24.circle","mv_cir",MV+" x y r>0 u v_",pre=lambda M,i:[M.ge(i.r,M.q(*NULLD))])
def _(M,i,r):
    yield nothrow(r)
    if r.threw: return
    yield "the centre is translated, or at the target; the radius is kept",M.AND(same(M,r,target(M,i,(i.x,i.y),(i.x,i.y))),M.eq(r[2],i.r),same(M,(r[3],r[4]),(r[0],r[1])))
