from core import *
TU="basic"
NULLD=(1,10**10)
@contract("C05.dist_pp","dist_pp","x1 y1 x2 y2")
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "Euclidean distance of the points", M.eq(r[0],M.hyp(i.x2-i.x1,i.y2-i.y1))
@contract("C05.dist_pl","dist_pl","x y a b c",pre=lambda M,i:[M.gt(i.a*i.a+i.b*i.b,M.q(1,10**20))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    d=M.abs(i.a*i.x+i.b*i.y+i.c)/M.hyp(i.a,i.b)
    for k in range(2): yield "distance of point and line is the length of the perpendicular",M.eq(r[k],d)
def on(M,l,x,y): return M.eq(l[0]*x+l[1]*y+l[2],0)
@contract("C04.line_pp","line_pp","x1 y1 x2 y2")
def _(M,i,r):
    d=M.hyp(i.x2-i.x1,i.y2-i.y1)
    same=M.lt(d,M.q(*NULLD))
    if r.threw: yield "throws only for identical points",same; return
    yield "identical points throw",M.NOT(same)
    for k in (0,3,6):
        l=r[k:k+3]
        yield "contains the first point",on(M,l,i.x1,i.y1)
        yield "contains the second point",on(M,l,i.x2,i.y2)
        yield "is a line",M.eq(l[0]*l[0]+l[1]*l[1],1)
    for k in range(3):
        yield "same line from the points in the other order",M.eq(r[k],r[3+k])
        yield "same line from the constructor",M.eq(r[k],r[6+k])
def par(M,a1,b1,a2,b2):
    """parallel within the documented threshold: angle < 0.001"""
    return M.lt(M.acos(M.abs(a1*a2+b1*b2)/(M.hyp(a1,b1)*M.hyp(a2,b2))),M.q(1,1000)) 
@contract("C04.pt_ll","pt_ll","a1 b1 c1 a2 b2 c2",pre=lambda M,i:[M.gt(i.a1*i.a1+i.b1*i.b1,M.q(1,10**20)),M.gt(i.a2*i.a2+i.b2*i.b2,M.q(1,10**20))])
def _(M,i,r):
    pa=par(M,i.a1,i.b1,i.a2,i.b2)
    if r.threw: yield "throws only for parallel lines",pa; return
    yield "parallel lines throw",M.NOT(pa)
    for k in (0,2,4):
        yield "on the first line",M.eq(i.a1*r[k]+i.b1*r[k+1]+i.c1,0)
        yield "on the second line",M.eq(i.a2*r[k]+i.b2*r[k+1]+i.c2,0)
def line_ok(M,*ab):
    """the coefficients are those of a line (not a numerically null direction)"""
    return [M.gt(ab[k]*ab[k]+ab[k+1]*ab[k+1],M.q(1,10**20)) for k in range(0,len(ab),2)]
def pl(M,a,b,c,x,y): return M.abs(a*x+b*y+c)/M.hyp(a,b)
@contract("C05.dist_pp_sym","dist_pp","x1 y1 x2 y2")
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "symmetric",M.eq(r[0],r[1])
    yield "zero exactly for coincident points",M.IFF(M.eq(r[0],0),M.AND(M.eq(i.x1,i.x2),M.eq(i.y1,i.y2)))
@contract("C05.dist_pp_h","dist_pp_h","x1 y1 w1!=0 x2 y2 w2!=0",pre=lambda M,i:[M.gt(M.abs(i.w1),M.q(1,10**9)),M.gt(M.abs(i.w2),M.q(1,10**9))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "distance does not depend on the homogeneous scaling",M.eq(r[0],M.hyp(i.x2/i.w2-i.x1/i.w1,i.y2/i.w2-i.y1/i.w1))
    yield "abscissa does not depend on the scaling",M.eq(r[1],i.x1/i.w1)
    yield "ordinate does not depend on the scaling",M.eq(r[2],i.y1/i.w1)
    yield "equality is that of the Cartesian points",M.IFF(M.flag(r.ret),M.lt(M.hyp(i.x2/i.w2-i.x1/i.w1,i.y2/i.w2-i.y1/i.w1),M.q(*NULLD)))
@contract("C05.dist_plh","dist_plh","x y w!=0 a b c",pre=lambda M,i:line_ok(M,i.a,i.b)+[M.gt(M.abs(i.w),M.q(1,10**9))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "distance does not depend on the scaling of point and line",M.eq(r[0],pl(M,i.a,i.b,i.c,i.x/i.w,i.y/i.w))
@contract("C05.orthog_seg","orthog_seg","a b c x y",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    small=M.lt(pl(M,i.a,i.b,i.c,i.x,i.y),M.q(*NULLD))
    if r.threw: yield "throws only for a point on the line",small; return
    yield "a point on the line throws",M.NOT(small)
    yield "the segment starts on the line",M.eq(i.a*r[0]+i.b*r[1]+i.c,0)
    yield "the segment ends at the point",M.AND(M.eq(r[2],i.x),M.eq(r[3],i.y))
    yield "the segment is perpendicular to the line",M.eq(i.b*(r[0]-i.x)-i.a*(r[1]-i.y),0)
# ------------------------------------------------------------ C04: further constructions
@contract("C04.line_pp4","line_pp","x1 y1 x2 y2")
def _(M,i,r):
    if r.threw: yield "throws only for identical points",M.lt(M.hyp(i.x2-i.x1,i.y2-i.y1),M.q(*NULLD)); return
    l=r[9:12]
    yield "four numbers: contains both points",M.AND(on(M,l,i.x1,i.y1),on(M,l,i.x2,i.y2))
@contract("C04.line_pp_h","line_pp_h","x1 y1 w1!=0 x2 y2 w2!=0",pre=lambda M,i:[M.gt(M.abs(i.w1),M.q(1,100)),M.gt(M.abs(i.w2),M.q(1,100))])
def _(M,i,r):
    same=M.lt(M.hyp(i.x2/i.w2-i.x1/i.w1,i.y2/i.w2-i.y1/i.w1),M.q(*NULLD))
    if r.threw: yield "throws only for identical points",same; return
    yield "identical points throw",M.NOT(same)
    for k in (0,3):
        yield "contains the first point",M.eq(r[k]*i.x1+r[k+1]*i.y1+r[k+2]*i.w1,0)
        yield "contains the second point",M.eq(r[k]*i.x2+r[k+1]*i.y2+r[k+2]*i.w2,0)
@contract("C04.line_or","line_or","x y")
def _(M,i,r):
    same=M.lt(M.hyp(i.x,i.y),M.q(*NULLD))
    if r.threw: yield "throws only for the origin",same; return
    yield "the origin throws",M.NOT(M.AND(M.eq(i.x,0),M.eq(i.y,0)))
    for k in (0,3):
        yield "passes through the origin",M.eq(r[k+2],0)
        yield "passes through the point",M.eq(r[k]*i.x+r[k+1]*i.y,0)
        yield "is a line",M.eq(r[k]*r[k]+r[k+1]*r[k+1],1)
@contract("C04.line_dir","line_dir","x y",inp=lambda M,i:[i.x,i.y])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    z=M.q(0); o=M.q(1)
    for k in (0,6):
        yield "vertical line at the abscissa",M.AND(M.eq(r[k+1],0),M.eq(r[k],1),M.eq(r[k+2],-i.x))
    for k in (3,9):
        yield "horizontal line at the ordinate",M.AND(M.eq(r[k],0),M.eq(r[k+1],1),M.eq(r[k+2],-i.y))
@contract("C04.inter_ll","inter_ll","a1 b1 c1 a2 b2 c2",pre=lambda M,i:line_ok(M,i.a1,i.b1,i.a2,i.b2))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "lines intersect exactly when not parallel",M.IFF(M.flag(r.ret),M.NOT(par(M,i.a1,i.b1,i.a2,i.b2)))
    yield "symmetric",M.eq(r[0],r[1])
    if r.ret:
        for k in (2,4):
            yield "the intersection is on the first line",M.eq(i.a1*r[k]+i.b1*r[k+1]+i.c1,0)
            yield "the intersection is on the second line",M.eq(i.a2*r[k]+i.b2*r[k+1]+i.c2,0)
# ------------------------------------------------------------ C06
def absco(M,i): return M.abs(i.a1*i.a2+i.b1*i.b2)/(M.hyp(i.a1,i.b1)*M.hyp(i.a2,i.b2))
LL="a1 b1 c1 a2 b2 c2"
LLP=lambda M,i:line_ok(M,i.a1,i.b1,i.a2,i.b2)
@contract("C06.angle_ll","angle_ll",LL,pre=LLP)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for k in range(3):
        yield "the angle is not negative",M.ge(r[k],0)
        yield "the angle is at most pi/2",M.le(r[k],M.pi/2)
        yield "its cosine is the absolute cosine of the directions",M.eq(M.cos(r[k]),absco(M,i))
@contract("C06.par_ll","par_ll",LL,pre=LLP)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "parallel exactly when the angle is below the threshold",M.IFF(M.flag(r.ret),par(M,i.a1,i.b1,i.a2,i.b2))
    yield "symmetric",M.IFF(M.flag(r.ret),M.eq(r[0],1))
@contract("C06.orthog_line","orthog_line","a b c x y",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "passes through the point",on(M,r[0:3],i.x,i.y)
    yield "perpendicular",M.eq(r[0]*i.a+r[1]*i.b,0)
    yield "is a line",M.eq(r[0]*r[0]+r[1]*r[1],1)
@contract("C06.orthog_line_gc","orthog_line_gc","g:0,1 a b c v",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    d=(i.a if i.g else i.b)
    small=M.lt(M.abs(d)/M.hyp(i.a,i.b),M.q(1,10**10))
    if r.threw: yield "throws only if the coordinate does not define a point",small; return
    yield "a coordinate that defines no point throws",M.NOT(small)
    o=-(i.b*i.v+i.c)/i.a if i.g else -(i.a*i.v+i.c)/i.b
    x,y=(o,i.v) if i.g else (i.v,o)
    yield "passes through the point of the line at the coordinate",on(M,r[0:3],x,y)
    yield "perpendicular",M.eq(r[0]*i.a+r[1]*i.b,0)
    yield "is a line",M.eq(r[0]*r[0]+r[1]*r[1],1)
@contract("C06.par_line","par_line","a b c x y",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "passes through the point",on(M,r[0:3],i.x,i.y)
    yield "same direction",M.eq(r[0]*i.b-r[1]*i.a,0)
    yield "is a line",M.eq(r[0]*r[0]+r[1]*r[1],1)
@contract("C06.par_lines","par_lines","a b c d",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    for k in (0,3):
        yield "same direction",M.AND(M.eq(r[k],r[6]),M.eq(r[k+1],r[7]))
        yield "at the distance",M.eq(M.abs(r[k+2]-r[8]),M.abs(i.d))
    yield "on opposite sides",M.eq(r[2]-r[8],-(r[5]-r[8]))
    yield "the line itself is unchanged",M.eq(r[6]*i.b-r[7]*i.a,0)
@contract("C06.par_dist2","par_dist2","a b c d",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "the distance of a line and its parallel is the given one",M.AND(M.eq(r[0],M.abs(i.d)),M.eq(r[1],M.abs(i.d)))
@contract("C06.par_dist","par_dist","a b c k!=0 c2",pre=lambda M,i:line_ok(M,i.a,i.b,i.a*i.k,i.b*i.k),inp=lambda M,i:[i.a,i.b,i.c,i.a*i.k,i.b*i.k,i.c2*i.k])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "distance of two parallel lines, however they are scaled",M.AND(M.eq(r[0],M.abs(i.c-i.c2)/M.hyp(i.a,i.b)),M.eq(r[1],M.abs(i.c-i.c2)/M.hyp(i.a,i.b)))
@contract("C06.par_dist_throw","par_dist1","w:0,1 "+LL,pre=LLP)
def _(M,i,r):
    p=par(M,i.a1,i.b1,i.a2,i.b2)
    if r.threw: yield "throws only for lines that are not parallel",M.NOT(p)
    else: yield "lines that are not parallel throw",p
@contract("C06.rot_line","rot_line","a b c u t",pre=lambda M,i:line_ok(M,i.a,i.b),
   inp=lambda M,i:[i.a,i.b,i.c]+rot_pt(M,i)+[i.t])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    x,y=rot_pt(M,i)
    yield "passes through the point",on(M,r[0:3],x,y)
    c,s=M.cos(i.t),M.sin(i.t)
    yield "turned by the angle",M.eq(r[0]*(s*i.a+c*i.b)-r[1]*(c*i.a-s*i.b),0)
    yield "is a line",M.eq(r[0]*r[0]+r[1]*r[1],1)
def rot_pt(M,i):
    """a point of the line a x + b y + c = 0"""
    n=i.a*i.a+i.b*i.b
    return [-i.a*i.c/n-i.b*i.u,-i.b*i.c/n+i.a*i.u]
@contract("C06.rot_line_off","rot_line","a b c x y t",pre=lambda M,i:line_ok(M,i.a,i.b)+[M.gt(pl(M,i.a,i.b,i.c,i.x,i.y),M.q(*NULLD))])
def _(M,i,r): yield "a point off the line throws",r.threw
# ------------------------------------------------------------ C07
@contract("C07.coord","coord","g:0,1 a b c v",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    small=M.lt(M.abs(i.a if i.g else i.b)/M.hyp(i.a,i.b),M.q(1,10**10))
    if r.threw: yield "throws only if the coordinate does not define a point",small; return
    yield "a coordinate that defines no point throws",M.NOT(small)
    yield "the coordinate is that of a point of the line",M.eq((i.b*i.v+i.a*r[0] if i.g else i.a*i.v+i.b*r[0])+i.c,0)
    yield "the point is on the line",M.eq(i.a*r[1]+i.b*r[2]+i.c,0)
    yield "the point has the given coordinate",M.eq(r[2] if i.g else r[1],i.v)
def le_xy(M,p,q): return M.OR(M.lts(p[0],q[0]),M.AND(M.eq(p[0],q[0]),M.le(p[1],q[1])))
def two_points(M,i,r,x,y,d):
    for k in (0,2):
        yield "on the line",M.eq(i.a*r[k]+i.b*r[k+1]+i.c,0)
        yield "at the distance",M.eq((r[k]-x)*(r[k]-x)+(r[k+1]-y)*(r[k+1]-y),d*d)
    yield "on opposite sides",M.AND(M.eq(r[0]+r[2],x+x),M.eq(r[1]+r[3],y+y))
    yield "lowest x (then y) first",le_xy(M,r[0:2],r[2:4])
@contract("C07.points_gc","points_gc","g:0,1 a b c v d",pre=lambda M,i:line_ok(M,i.a,i.b))
def _(M,i,r):
    small=M.lt(M.abs(i.a if i.g else i.b)/M.hyp(i.a,i.b),M.q(1,10**10))
    if r.threw: yield "throws only if the coordinate does not define a point",small; return
    yield "a coordinate that defines no point throws",M.NOT(small)
    yield from two_points(M,i,r,r[4],r[5],i.d)
@contract("C07.points_p","points_p","a b c u d",pre=lambda M,i:line_ok(M,i.a,i.b),inp=lambda M,i:[i.a,i.b,i.c]+rot_pt(M,i)+[i.d])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    x,y=rot_pt(M,i)
    yield from two_points(M,i,r,x,y,i.d)
@contract("C07.points_off","points_p","a b c x y d",pre=lambda M,i:line_ok(M,i.a,i.b)+[M.gt(pl(M,i.a,i.b,i.c,i.x,i.y),M.q(*NULLD))])
def _(M,i,r): yield "a start point off the line throws",r.threw
# ------------------------------------------------------------ C31
@contract("C31.pt_eq","pt_eq","x1 y1 x2 y2")
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "reflexive",M.eq(r[3],1)
    yield "symmetric",M.eq(r[0],r[1])
    yield "!= is the negation",M.eq(r[2],1-r[0])
    yield "equal exactly when closer than the threshold",M.IFF(M.flag(r.ret),M.lt(M.hyp(i.x2-i.x1,i.y2-i.y1),M.q(*NULLD)))
@contract("C31.pt_eq_h","dist_pp_h","x1 y1 w1!=0 x2 y2 w2!=0",pre=lambda M,i:[M.gt(M.abs(i.w1),M.q(1,10**9)),M.gt(M.abs(i.w2),M.q(1,10**9))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "equality does not depend on the homogeneous scaling",M.IFF(M.flag(r.ret),M.lt(M.hyp(i.x2/i.w2-i.x1/i.w1,i.y2/i.w2-i.y1/i.w1),M.q(*NULLD)))
def lt_xy(M,x1,y1,x2,y2): return M.OR(M.lts(x1,x2),M.AND(M.eq(x1,x2),M.lt(y1,y2)))
@contract("C31.pt_lt","pt_lt","x1 y1 x2 y2")
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "less: by x, then y",M.IFF(M.flag(r.ret),lt_xy(M,i.x1,i.y1,i.x2,i.y2))
    yield "irreflexive",M.eq(r[2],0)
    yield "asymmetric",M.NOT(M.AND(M.eq(r[0],1),M.eq(r[1],1)))
    yield "total: distinct points are ordered",M.OR(M.eq(r[0],1),M.eq(r[1],1),M.AND(M.eq(i.x1,i.x2),M.eq(i.y1,i.y2)))
@contract("C31.pt_lt3","pt_lt3","x1 y1 x2 y2 x3 y3")
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "transitive",M.IMP(M.AND(M.eq(r[0],1),M.eq(r[1],1)),M.eq(r[2],1))
@contract("C31.pt_lt_h","pt_lt_h","x1 y1 w1!=0 x2 y2 w2!=0",pre=lambda M,i:[M.gt(M.abs(i.w1),M.q(1,10**9)),M.gt(M.abs(i.w2),M.q(1,10**9))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "the order does not depend on the homogeneous scaling",M.IFF(M.flag(r.ret),lt_xy(M,i.x1/i.w1,i.y1/i.w1,i.x2/i.w2,i.y2/i.w2))
@contract("C31.line_eq_scaled","line_eq_scaled","a b c k!=0",pre=lambda M,i:line_ok(M,i.a,i.b,i.a*i.k,i.b*i.k))
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "a line equals its multiple",M.AND(M.flag(r.ret),M.eq(r[0],1))
