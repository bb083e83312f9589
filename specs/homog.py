from core import *
TU="homog"
EPS0=(1,10**10); DET0=(1,10**15)
HV=" ".join("h%d%d"%(i,j) for i in range(3) for j in range(3))
def mat(i,p="h"): return [[i["%s%d%d"%(p,r,c)] for c in range(3)] for r in range(3)]
def mv(H,v): return [H[k][0]*v[0]+H[k][1]*v[1]+H[k][2]*v[2] for k in range(3)]
def mm(A,B): return [[sum((A[i][k]*B[k][j] for k in range(1,3)),A[i][0]*B[0][j]) for j in range(3)] for i in range(3)]
def det(H): return H[0][0]*(H[1][1]*H[2][2]-H[1][2]*H[2][1])-H[0][1]*(H[1][0]*H[2][2]-H[1][2]*H[2][0])+H[0][2]*(H[1][0]*H[2][1]-H[1][1]*H[2][0])
def small(M,x): return M.lt(M.abs(x),M.q(*EPS0))
def smalld(M,x): return M.lt(M.abs(x),M.q(*DET0))
def ghom(names):
    def g(rng):
        d={}
        for n in names: d[n]=rng.choice([0.,1.,-1.,2.,.5,-.5,3.]) if n[-1]!=n[-2] else rng.choice([1.,2.,-1.,.5])
        return d
    return g
@contract("C01.build","hom_build",HV,nout=9)
def _(M,i,r):
    H=mat(i)
    if r.threw: yield "throws only if the element (2,2) is null",small(M,H[2][2]); return
    yield "a null element (2,2) throws",M.NOT(small(M,H[2][2]))
    for a in range(3):
        for b in range(3): yield "the matrix is the given one up to scale",M.eq(r[3*a+b]*H[2][2],H[a][b])
@contract("C01.apply","hom_point",HV+" x y",pre=lambda M,i:[M.ne(mv(mat(i),[i.x,i.y,M.q(1)])[2],M.q(0))],nout=2)
def _(M,i,r):
    H=mat(i)
    if r.threw: yield "throws only if the element (2,2) is null",small(M,H[2][2]); return
    v=mv(H,[i.x,i.y,M.q(1)])
    yield "image abscissa",M.eq(r[0]*v[2],v[0])
    yield "image ordinate",M.eq(r[1]*v[2],v[1])
AV=HV.replace("h","a"); BV=HV.replace("h","b")
@contract("C01.compose","hom_compose",AV+" "+BV+" x y",nout=4,
  pre=lambda M,i:[M.ne(mv(mat(i,"b"),[i.x,i.y,M.q(1)])[2],M.q(0)),M.ne(mv(mm(mat(i,"a"),mat(i,"b")),[i.x,i.y,M.q(1)])[2],M.q(0))])
def _(M,i,r):
    A=mat(i,"a"); B=mat(i,"b"); p=mm(A,B)[2][2]
    if r.threw:
        yield "throws only if an element (2,2) is null",M.OR(small(M,A[2][2]),small(M,B[2][2]),small(M,p/(A[2][2]*B[2][2]))); return
    yield "(A*B)*p and A*(B*p): same abscissa",M.eq(r[0],r[2])
    yield "(A*B)*p and A*(B*p): same ordinate",M.eq(r[1],r[3])
    v=mv(A,mv(B,[i.x,i.y,M.q(1)]))
    yield "abscissa of the composed image",M.eq(r[2]*v[2],v[0])
    yield "ordinate of the composed image",M.eq(r[3]*v[2],v[1])
def adj22(H): return H[0][0]*H[1][1]-H[0][1]*H[1][0]
def h1(i,M): 
    H=mat(i); 
    return [[H[a][b]/H[2][2] for b in range(3)] for a in range(3)]
PRE22=lambda M,i:[M.NOT(small(M,i.h22))]
@contract("C01.inverse","hom_inverse",HV,nout=18,pre=PRE22)
def _(M,i,r):
    H=h1(i,M); d=det(H)
    if r.threw: yield "throws only for a null determinant or an inverse without element (2,2)",M.OR(smalld(M,d),small(M,adj22(H)/d),small(M,d/adj22(H))); return
    yield "a null determinant throws",M.NOT(smalld(M,d))
    for k in range(18):
        yield ("H * inverse is the identity","inverse * H is the identity")[k//9],M.eq(r[k],M.q(1 if k%9 in(0,4,8) else 0))
@contract("C01.inverse_pt","hom_inverse_pt",HV+" x y",nout=2,pre=lambda M,i:PRE22(M,i)+[M.ne(mv(mat(i),[i.x,i.y,M.q(1)])[2],M.q(0))])
def _(M,i,r):
    H=h1(i,M); d=det(H)
    if r.threw: yield "throws only for a null determinant or an inverse without element (2,2)",M.OR(smalld(M,d),small(M,adj22(H)/d)); return
    yield "the inverse brings a point back (x)",M.eq(r[0],i.x)
    yield "the inverse brings a point back (y)",M.eq(r[1],i.y)
@contract("C01.transpose","hom_transpose",HV,nout=9,pre=PRE22)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    H=h1(i,M)
    for k in range(9): yield "rows and columns exchanged",M.eq(r[k],H[k%3][k//3])
@contract("C01.equal_multiple","hom_equal_multiple",HV+" k!=0",nout=3,pre=lambda M,i:PRE22(M,i)+[M.NOT(small(M,i.h22*i.k))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "a homography equals its multiple",M.flag(r.ret)
    yield "equality is symmetric",M.eq(r[1],1)
    yield "the operator != is its negation",M.eq(r[2],0)
@contract("C01.equal_assigned","hom_equal_assigned",HV+" k!=0",pre=lambda M,i:PRE22(M,i)+[M.NOT(small(M,i.h22*i.k))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "a homography equals the copy of its multiple",M.flag(r.ret)
@contract("C01.equal","hom_equal",AV+" "+BV,pre=lambda M,i:[M.NOT(small(M,i.a22)),M.NOT(small(M,i.b22))])
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    A=mat(i,"a"); B=mat(i,"b")
    e=M.AND(*[M.lt(M.abs(A[x][y]/A[2][2]-B[x][y]/B[2][2]),M.q(*DET0)) for x in range(3) for y in range(3) if (x,y)!=(2,2)])
    yield "equal exactly when the normalised matrices are",M.IFF(M.flag(r.ret),e)

# ---------------------------------------------------------------- C02
def hinp(M,i,*rest): return [i[x] for x in HV.split()[:8]]+[M.q(1)]+list(rest)
def hom1(M,i): 
    return [[i["h%d%d"%(a,b)] if (a,b)!=(2,2) else M.q(1) for b in range(3)] for a in range(3)]
H8=" ".join(HV.split()[:8])
def mutated(M,op,H,p,q):
    """the matrix (up to scale) after the mutation"""
    o=M.q(1); z=M.q(0)
    T=[[o,z,p],[z,o,q],[z,z,o]]; S=[[p,z,z],[z,q,z],[z,z,o]]; S1=[[p,z,z],[z,p,z],[z,z,o]]
    Rm=[[M.cos(p),-M.sin(p),z],[M.sin(p),M.cos(p),z],[z,z,o]]; I=[[o,z,z],[z,o,z],[z,z,o]]
    if op in(0,16): return H
    if op==1: return I
    if op==2: return [[H[0][0],p,H[0][2]],[H[1][0],H[1][1],q],H[2]]
    if op==13: return [[H[0][0],p,H[0][2]],H[1],H[2]]
    if op in(3,11): return T
    if op==4: return Rm
    if op==5: return S
    if op==15: return S1
    if op in(6,12): return mm(T,H)
    if op==7: return mm(Rm,H)
    if op==8: return mm(S,H)
    if op==14: return mm(S1,H)
    if op==10: return [[H[b][a] for b in range(3)] for a in range(3)]
    if op==9: return adj(H)
def adj(H):
    def c(r,s):
        R_=[x for x in range(3) if x!=r]; C_=[x for x in range(3) if x!=s]
        v=H[R_[0]][C_[0]]*H[R_[1]][C_[1]]-H[R_[0]][C_[1]]*H[R_[1]][C_[0]]
        return v if (r+s)%2==0 else -v
    return [[c(b,a) for b in range(3)] for a in range(3)]
def line_pre(M,i):
    H=mutated(M,i.op,hom1(M,i),i.p,i.q); o=M.q(1)
    w1=mv(H,[i.x1,i.y1,o])[2]; w2=mv(H,[i.x2,i.y2,o])[2]
    return [M.gt(M.hyp(i.x2-i.x1,i.y2-i.y1),M.q(1,10**6)),M.ne(w1,M.q(0)),M.ne(w2,M.q(0))]
@contract("C02.line","hom_line","op:0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16 used:0,1 "+H8+" p q x1 y1 x2 y2",nout=7,deadline=60,
  inp=lambda M,i:[i.op,i.used]+hinp(M,i,i.p,i.q,i.x1,i.y1,i.x2,i.y2),pre=line_pre)
def _(M,i,r):
    """use, modify, use: the line is transformed by the matrix the homography has now.  The states of the object are its matrix
    and whether the cached inverse transpose is absent, out of date or current; the contract is checked from a state with a
    current cache (used=1) and from one without (used=0), so it holds after every sequence of modifications and uses."""
    if r.threw: return
    l=r[4:7]
    for k,n in((0,"first"),(2,"second")):
        yield "the image of the line contains the image of the %s point"%n,M.eq(l[0]*r[k]+l[1]*r[k+1]+l[2],M.q(0))
    yield "the image is a line",M.eq(l[0]*l[0]+l[1]*l[1],M.q(1))
# ---------------------------------------------------------------- C03
def bpre(M,i):
    H=mutated(M,i.op,hom1(M,i),i.p,i.q)
    return [M.ne(mv(H,[i.x,i.y,M.q(1)])[2],M.q(0)),M.ne(H[2][2],M.q(0))]
@contract("C03.builder","hom_builder","op:1,3,4,5,6,7,8,14,15 "+H8+" p q x y",nout=2,inp=lambda M,i:[i.op]+hinp(M,i,i.p,i.q,i.x,i.y),pre=bpre)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    v=mv(mutated(M,i.op,hom1(M,i),i.p,i.q),[i.x,i.y,M.q(1)])
    yield "image abscissa",M.eq(r[0]*v[2],v[0])
    yield "image ordinate",M.eq(r[1]*v[2],v[1])
@contract("C03.ctor_rotation","hom_ctor1","t x y",nout=2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "rotated abscissa",M.eq(r[0],M.cos(i.t)*i.x-M.sin(i.t)*i.y)
    yield "rotated ordinate",M.eq(r[1],M.sin(i.t)*i.x+M.cos(i.t)*i.y)
@contract("C03.ctor_translation","hom_ctor2","p q x y",nout=2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "translated abscissa",M.eq(r[0],i.x+i.p)
    yield "translated ordinate",M.eq(r[1],i.y+i.q)
@contract("C03.ctor_default","hom_ctor0","x y",nout=2)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    yield "identity",M.AND(M.eq(r[0],i.x),M.eq(r[1],i.y))
# ------------------------------------------------------------ C20: shapes, point by point
def fin(M,i,*pts):
    """the images of the points are finite, the matrix can be normalised"""
    return PRE22(M,i)+[M.gt(M.abs(mv(mat(i),[x,y,M.q(1)])[2]),M.abs(i.h22)*M.q(1,10**6)) for x,y in pts]
def img(M,i,x,y):
    v=mv(mat(i),[x,y,M.q(1)]); return (v[0]/v[2],v[1]/v[2])
def at(M,r,k,p): return M.AND(M.eq(r[k],p[0]),M.eq(r[k+1],p[1]))
def PTS(n): return " ".join("x%d y%d"%(k,k) for k in range(1,n+1))
def pts(i,n): return [(i["x%d"%k],i["y%d"%k]) for k in range(1,n+1)]
@contract("C20.segment","hom_seg",HV+" "+PTS(2),pre=lambda M,i:fin(M,i,*pts(i,2)))
def _(M,i,r):
    a,b=[img(M,i,*p) for p in pts(i,2)]
    null=M.lt(M.hyp(b[0]-a[0],b[1]-a[1]),M.q(1,10**10)); null0=M.lt(M.hyp(i.x1-i.x2,i.y1-i.y2),M.q(1,10**10))
    if r.threw: yield "throws only if the points or their images are identical",M.OR(null,null0); return
    yield "the end points are the images of the end points",M.OR(M.AND(at(M,r,0,a),at(M,r,2,b)),M.AND(at(M,r,0,b),at(M,r,2,a)))
    yield "smallest point first",M.OR(M.lts(r[0],r[2]),M.AND(M.eq(r[0],r[2]),M.le(r[1],r[3])))
for _n,_fn,_k,_o,_doc in (("array","hom_arr",2,0,""),("vector","hom_vec",3,1,"three points"),("apply","hom_apply",2,1,"two points"),("closed","hom_cpoly",3,1,"three points"),("open","hom_opoly",3,1,"three points")):
    def _mk(n,k,o):
        def _(M,i,r):
            if r.threw:
                yield "throws only if two consecutive points are identical",M.OR(*[M.lt(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(1,10**10)) for p in pts(i,k) for q in pts(i,k) if p is not q]) if "C20.closed C20.open".count(n) else False; return
            if o: yield "as many points",M.eq(r[0],k)
            for j,p in enumerate(pts(i,k)): yield "the image of each point, in the same sequence",at(M,r,o+2*j,img(M,i,*p))
        return _
    contract("C20."+_n,_fn,HV+" "+PTS(_k),pre=lambda M,i,_k=_k:fin(M,i,*pts(i,_k)),bounded=_doc or None)(_mk("C20."+_n,_k,_o))
@contract("C20.rect","hom_rect",HV+" x1 y1 w>0 h>0",inp=lambda M,i:[i["h%d%d"%(a,b)] for a in range(3) for b in range(3)]+[i.x1,i.y1,i.x1+i.w,i.y1+i.h],nout=20,
  pre=lambda M,i:[M.gt(i.w,M.q(1,10**9)),M.gt(i.h,M.q(1,10**9))]+fin(M,i,(i.x1,i.y1),(i.x1+i.w,i.y1),(i.x1,i.y1+i.h),(i.x1+i.w,i.y1+i.h)))
def _(M,i,r):
    c=((i.x1,i.y1),(i.x1,i.y1+i.h),(i.x1+i.w,i.y1+i.h),(i.x1+i.w,i.y1))
    if r.threw:
        q=[img(M,i,*p) for p in c]
        yield "throws only if the images of consecutive corners are identical",M.OR(*[M.lt(M.hyp(q[k+1][0]-q[k][0],q[k+1][1]-q[k][1]),M.q(1,10**10)) for k in range(3)]); return
    yield "four points",M.eq(r[0],4)
    for j,p in enumerate(c):
        yield "the image of each corner, in sequence",at(M,r,1+4*j,img(M,i,*p))
