from core import *
TU="ell"
TRI=lambda M,k,a,b: [M.lt(a,b),M.gt(a,b),M.eq(a,b)][int(k)]
# the angle: any, with a slanted conic (k=0), or exactly on an axis (k=1,2,3)
def ANG(M,i): return i.t if i.k==0 else M.q(0) if i.k==1 else M.pi/2 if i.k==2 else -M.pi/2 if i.k==3 else M.pi
def CS(M,i): return [(M.cos(i.t),M.sin(i.t)) if i.k==0 else (M.q(1),M.q(0)) if i.k==1 else (M.q(0),M.q(1)) if i.k==2 else (M.q(0),M.q(-1)) if i.k==3 else (M.q(-1),M.q(0))][0]
def ok(M,i):
    c,s=CS(M,i); a2,b2=i.a*i.a,i.b*i.b
    r=[M.ge(4*a2*b2,M.q(1,10**10))]
    if i.k==0: r.append(M.ge(2*M.abs((b2-a2)*s*c),M.q(1,10**10)))
    return r
def INP(M,i,*l): return [i.x,i.y,i.a,i.b,ANG(M,i)]+list(l)
def axes(M,i,o): return (i.a,i.b) if o!=0 else (i.b,i.a)
def same_axis(M,t,c,s): return M.eq(M.sin(t)*c,M.cos(t)*s)
def reports(M,i,r,k,x,y,o):
    a,b=axes(M,i,o); c,s=CS(M,i)
    yield "the centre is the given one",M.AND(M.eq(r[k],x),M.eq(r[k+1],y))
    yield "the semi-axes are the given ones, largest first",M.AND(M.eq(r[k+2],a),M.eq(r[k+3],b))
    if o!=2: yield "the angle gives the direction of the major axis",same_axis(M,r[k+4],c,s)
@contract("C18.make","ell_make","m:0,1,2 k:0,1,2,3,4 o:0,1,2 x y a>0 b>0 t",cases=[dict(m=m,k=k,o=o) for m in range(3) for k in range(5) for o in range(3) if not(k==0 and o==2)],
  inp=lambda M,i:[i.m]+INP(M,i),pre=lambda M,i:ok(M,i)+[TRI(M,i.o,i.a,i.b)])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield from reports(M,i,r,0,i.x,i.y,i.o)
    yield "the area is pi a b",M.AND(M.eq(r[5],M.pi*i.a*i.b),M.eq(r[6],M.pi*i.a*i.b))
    yield "the free functions agree",M.AND(M.eq(r[7],r[0]),M.eq(r[8],r[1]),M.eq(r[9],r[4]))
@contract("C18.from_circle","ell_from_circle","x y r>0",pre=lambda M,i:[M.ge(i.r,M.q(1,100))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "centre and both semi-axes are those of the circle",M.AND(M.eq(r[0],i.x),M.eq(r[1],i.y),M.eq(r[2],i.r),M.eq(r[3],i.r))
    yield "area",M.eq(r[5],M.pi*i.r*i.r)
    yield "it is a circle",M.ne(r[6],0)
def form(M,i,u,v,o):
    """a2 b2 times the normalised quadratic form minus one, in the frame of the ellipse"""
    a,b=axes(M,i,o); c,s=CS(M,i); dx,dy=u-i.x,v-i.y
    p=c*dx+s*dy; q=c*dy-s*dx
    return p*p*b*b+q*q*a*a-a*a*b*b
@contract("C18.conic","ell_conic","k:0,1,2,3,4 o:0,1,2 x y a>0 b>0 t u v",inp=lambda M,i:INP(M,i,i.u,i.v),pre=lambda M,i:[TRI(M,i.o,i.a,i.b)])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "the conic vanishes exactly on the ellipse, is negative inside",M.eq(r[0],form(M,i,i.u,i.v,i.o))
    yield "the matrix is symmetric",M.AND(M.eq(r[2],0),M.eq(r[3],0),M.eq(r[4],0))
@contract("C18.move","ell_move","m:0,1,2,3 k:0,1,2,3 o:1 x y a>0 b>0 t u v",inp=lambda M,i:[i.m]+INP(M,i,i.u,i.v),pre=lambda M,i:ok(M,i)+[TRI(M,i.o,i.a,i.b)])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    x,y=(i.x+i.u,i.y+i.v) if i.m<2 else (i.u,i.v)
    yield from reports(M,i,r,0,x,y,i.o)
@contract("C18.eq","ell_eq","k:1 o:1 x y a>0 b>0 t u v c>0 d>0",inp=lambda M,i:INP(M,i,i.u,i.v,i.c,i.d,M.q(0)),pre=lambda M,i:ok(M,i)+[TRI(M,i.o,i.a,i.b),M.gt(i.c,i.d),M.gt(i.d,M.q(1,1000))],opts=dict(handlers=[itemax]),feas=10)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for j in range(5): yield "the comparison leaves the ellipse unchanged",M.eq(r[2+j],r[7+j])
    yield "symmetric",M.flag(r[0])==r.ret if not M.sym else M.IFF(M.flag(r[0]),M.flag(r.ret))
# ------------------------------------------------------------ C19
@contract("C19.point","ell_pt","k:0,1,2,3,4 o:0,1,2 x y a>0 b>0 t u v",cases=[dict(k=k,o=o) for k in range(5) for o in range(3) if not(k==0 and o==2)],
  inp=lambda M,i:(lambda c,s:INP(M,i,i.x+c*i.u-s*i.v,i.y+s*i.u+c*i.v))(*CS(M,i)),pre=lambda M,i:ok(M,i)+[TRI(M,i.o,i.a,i.b)])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    # (u,v): the point in the frame of the ellipse (every point has such coordinates)
    a,b=axes(M,i,i.o); f=i.u*i.u*b*b+i.v*i.v*a*a-a*a*b*b
    if r.ret: yield "reported inside only if it is",M.lt(f,0)
    else: yield "an inside point is reported",M.ge(f,0)
@contract("C19.bb","ell_bb","k:0,1,2,3,4 o:0,1,2 x y a>0 b>0 t",cases=[dict(k=k,o=o) for k in range(5) for o in range(3) if not(k==0 and o==2)],inp=lambda M,i:INP(M,i),pre=lambda M,i:ok(M,i)+[TRI(M,i.o,i.a,i.b),M.gt(i.a,M.q(1,10**6)),M.gt(i.b,M.q(1,10**6))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    a,b=axes(M,i,i.o); c,s=CS(M,i)
    for k in(0,4):
        yield "centred",M.AND(M.eq(r[k]+r[k+2],2*i.x),M.eq(r[k+1]+r[k+3],2*i.y))
        w=r[k+2]-r[k]; h=r[k+3]-r[k+1]
        yield "the half width is the largest abscissa offset",M.AND(M.gt(w,0),M.eq(w*w,4*(a*a*c*c+b*b*s*s)))
        yield "the half height is the largest ordinate offset",M.AND(M.gt(h,0),M.eq(h*h,4*(a*a*s*s+b*b*c*c)))
# ------------------------------------------------------------ C20
def aff(M,i,x,y): return (i.p*x+i.q*y+i.u,i.r*x+i.s*y+i.v)
PREA=lambda M,i:[M.ge(M.abs(i.p*i.s-i.q*i.r),M.q(1,10**6))]
@contract("C20.circle","hom_cir","p q u r s v x y w>0 e f",pre=lambda M,i:PREA(M,i)+[M.ge(i.w,M.q(1,10**10))],nout=4)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    X,Y=aff(M,i,i.e,i.f)
    yield "image of the point",M.AND(M.eq(r[0],X),M.eq(r[1],Y))
    d=(i.e-i.x)*(i.e-i.x)+(i.f-i.y)*(i.f-i.y)-i.w*i.w
    yield "the image of a point is on, inside or outside the ellipse as the point is of the circle",M.eq(r[2],d*i.w*i.w)
@contract("C20.ellipse","hom_ell","o:0,1,2 p q u r s v x y a>0 b>0 t e f",inp=lambda M,i:[i.p,i.q,i.u,i.r,i.s,i.v,i.x,i.y,i.a,i.b,i.t,i.e,i.f],pre=lambda M,i:PREA(M,i)+[TRI(M,i.o,i.a,i.b)],nout=4)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    X,Y=aff(M,i,i.e,i.f)
    yield "image of the point",M.AND(M.eq(r[0],X),M.eq(r[1],Y))
    i.k=0
    yield "the image of a point is on, inside or outside the image as the point is of the ellipse",M.eq(r[2],form(M,i,i.e,i.f,i.o))
