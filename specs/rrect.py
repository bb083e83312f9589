from core import *
TU="rrect"
# the 13 ways two intervals lie on a line: positions of a0 a1 b0 b1 among the distinct values
WAYS=sorted({t for t in __import__("itertools").product(range(4),repeat=4) if t[0]<t[1] and t[2]<t[3] and set(t)==set(range(max(t)+1))})
assert len(WAYS)==13
def lay(M,i,c):
    x=i[c]; p=[x]
    for k in range(3): x=x+i["%s%d"%(c,k+1)]; p.append(x)
    return [p[k] for k in WAYS[i["w"+c]]]
def inp(M,i):
    X,Y=lay(M,i,"x"),lay(M,i,"y")
    return [X[0],Y[0],X[1],Y[1],X[2],Y[2],X[3],Y[3]]
FV="wx:0 wy:0 x x1>0 x2>0 x3>0 y y1>0 y2>0 y3>0"
def gaps(M,i): return [M.gt(i[c+str(k)],M.q(1,1000)) for c in "xy" for k in(1,2,3)]
CASES=[dict(wx=a,wy=b) for a in range(13) for b in range(13)]
def meet(w): a0,a1,b0,b1=WAYS[w]; return max(a0,b0)<min(a1,b1)
def cap(M,i):
    r=[]
    for c in "xy":
        L=lay(M,i,c); W=WAYS[i["w"+c]]
        r.append((L[0] if W[0]>=W[2] else L[2],L[1] if W[1]<=W[3] else L[3]))
    return r
def inter(nm,fn,cases=CASES,**kw):
    @contract("C16."+nm,fn,FV,cases=cases,inp=inp,pre=gaps,feas=60,nout=8,**kw)
    def _(M,i,r):
        yield "does not throw",not r.threw
        if r.threw: return
        m=meet(i.wx) and meet(i.wy)
        yield "reported exactly when the interiors meet",M.eq(r[0],1 if m else 0)
        if m:
            (x0,x1),(y0,y1)=cap(M,i)
            yield "the rectangle of the points in both",M.AND(M.eq(r[1],x0),M.eq(r[2],y0),M.eq(r[3],x1),M.eq(r[4],y1))
inter("intersection","rr_inter")
FEW=[dict(wx=a,wy=(a*5+3)%13) for a in range(13)]
inter("intersection_free","rr_free",FEW); inter("intersection_operator","rr_op",FEW)
@contract("C16.iou","rr_iou",FV,cases=CASES,inp=inp,pre=gaps,feas=60,nout=8)
def _(M,i,r):
    yield "does not throw",not r.threw
    if r.threw: return
    if not(meet(i.wx) and meet(i.wy)): yield "no common area: 0",M.eq(r[0],0); return
    (x0,x1),(y0,y1)=cap(M,i); X,Y=lay(M,i,"x"),lay(M,i,"y")
    I=(x1-x0)*(y1-y0); U=(X[1]-X[0])*(Y[1]-Y[0])+(X[3]-X[2])*(Y[3]-Y[2])-I
    yield "the common area over the joint area",M.eq(r[0]*U,I)
def outline(i):
    """the corners of the union as a cycle of positions in the table of the distinct coordinates, through a single common corner twice; None when apart"""
    wx,wy=WAYS[i.wx],WAYS[i.wy]
    cell=lambda x,y:(wx[0]<=x<wx[1] and wy[0]<=y<wy[1]) or(wx[2]<=x<wx[3] and wy[2]<=y<wy[3])
    nxt={}
    for x in range(3):
        for y in range(3):
            if not cell(x,y): continue
            for p,q,o in(((x,y),(x+1,y),(x,y-1)),((x+1,y),(x+1,y+1),(x+1,y)),((x+1,y+1),(x,y+1),(x,y+1)),((x,y+1),(x,y),(x-1,y))):
                if not cell(*o): nxt.setdefault(p,[]).append((q,(x,y)))
    p=min(nxt); c=[p]; q,w=nxt[p][0]; m=1
    while q!=p:
        c.append(q); l=nxt[q]; q,w=l[0] if len(l)==1 else next(e for e in l if e[1]!=w); m+=1
    if m!=sum(map(len,nxt.values())): return None
    n=len(c); return [c[k] for k in range(n) if not(c[k-1][0]==c[k][0]==c[(k+1)%n][0] or c[k-1][1]==c[k][1]==c[(k+1)%n][1])]
def values(M,i,c):
    p=[i[c]]
    for k in(1,2,3): p.append(p[-1]+i["%s%d"%(c,k)])
    return p
def union(nm,fn,cases):
  @contract("C16."+nm,fn,FV,cases=cases,inp=inp,pre=gaps,feas=60,nout=40)
  def _(M,i,r):
      yield "does not throw",not r.threw
      if r.threw: return
      o=outline(i)
      if o is None: yield "no polygon when the rectangles are apart",M.eq(r[0],0); return
      n=len(o); same=M.eq(r[0],n); yield "as many corners as the outline of the union",same
      if same is False: return
      X,Y=values(M,i,"x"),values(M,i,"y")
      yield "the corners of the outline in sequence",M.AND(M.eq(r[0],n),M.OR(*[M.AND(*[M.AND(M.eq(r[1+2*k],X[o[(s+d*k)%n][0]]),M.eq(r[2+2*k],Y[o[(s+d*k)%n][1]])) for k in range(n)]) for s in range(n) for d in(1,-1)]))
union("union","rr_union",CASES); union("union_free","rr_ufree",FEW); union("union_operator","rr_uop",FEW)
