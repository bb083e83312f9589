from core import *
from poly import NULLD
TU="rtp"
def apart(M,p,q): return M.gt(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(1,10**9))
def P6(i): return [(i.x0,i.y0),(i.x1,i.y1),(i.x2,i.y2)]
def tri(M,i): p=P6(i); return [apart(M,p[0],p[1]),apart(M,p[1],p[2]),apart(M,p[0],p[2])]
C6="x0 y0 x1 y1 x2 y2"
# kind: (free variables, precondition for the object to be built, type, size, note)
KINDS=dict(
 p=("x0 y0",lambda M,i:[],1,1,None), l=("x0 y0 x1",lambda M,i:[M.gt(M.hyp(i.x0,i.y0),M.q(1,10**6))],0,0,None),
 s=("x0 y0 x1 y1",lambda M,i:[apart(M,(i.x0,i.y0),(i.x1,i.y1))],2,2,None), o=("x0 y0 x1 y1",lambda M,i:[apart(M,(i.x0,i.y0),(i.x1,i.y1))],3,2,None),
 r=("x0 y0 x1 y1",lambda M,i:[M.gt(i.x1,i.x0+M.q(1,10**9)),M.gt(i.y1,i.y0+M.q(1,10**9))],4,4,None), c=("x0 y0 r",lambda M,i:[M.gt(i.r,M.q(1,10**9))],5,1,None),
 e=("x0 y0 a>0 b>0 t",lambda M,i:[M.gt(i.a,i.b),M.gt(i.b,M.q(1,100))],6,1,None),
 cp=(C6,tri,8,3,"three points"), op=(C6,tri,7,3,"three points"))
def acc(how,tu,k,qs):
    fv,pre,ty,sz,bd=KINDS[k]
    @contract("C34.%s_%s"%(how,k),"rtp_%s_%s"%(how,k),"q:%s %s"%(",".join(map(str,qs)),fv),tu=tu,pre=pre,bounded=bd,feas=40)
    def _(M,i,r):
        if k=="l" and i.q==0: yield "the length of a line is refused",r.threw; return
        yield "does not throw",not r.threw
        if r.threw: return
        yield "the same value as from the object",M.eq(r[0],r[1])
        if i.q==2: yield "the type of the object",M.eq(r[0],ty)
        if i.q==3: yield "the size of the object",M.eq(r[0],sz)
        if i.q==4: yield "double precision",M.eq(r[0],1)
for _k in KINDS:
    acc("ptr","rtpp",_k,range(4)); acc("var","rtp",_k,range(5)); acc("obj","rtp",_k,range(5))

from homog import HV,fin
PT=dict(p=lambda i:[(i.x0,i.y0)],s=lambda i:[(i.x0,i.y0),(i.x1,i.y1)],o=lambda i:[(i.x0,i.y0),(i.x1,i.y1)],r=lambda i:[(a,b) for a in(i.x0,i.x1) for b in(i.y0,i.y1)],cp=P6,op=P6)
NV=dict(p=2,l=3,s=4,o=4,r=9,c=9,e=9,cp=7,op=7)       # values written
def tra(k):
    fv,pre,ty,sz,bd=KINDS[k]
    @contract("C34.transform_"+k,"rtp_tr_"+k,HV+" "+fv,pre=lambda M,i:pre(M,i)+(fin(M,i,*PT[k](i)) if k in PT else []),bounded=bd,feas=60,nout=48)
    def _(M,i,r):
        if r.threw: yield "throws only as the product does",M.ne(r[2],1); return
        yield "the result holds the kind of shape the product gives",M.eq(r[1],1)
        for j in range(NV[k]): yield "the same values as the product with the object",M.eq(r[10+j],r[30+j])
for _k in NV: tra(_k)
