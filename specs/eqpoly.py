from core import *
from poly import invalid,same,dist
TU="eqpoly"
def less(M,p,q): return M.OR(M.lts(p[0],q[0]),M.AND(M.eq(p[0],q[0]),M.lt(p[1],q[1])))
def first(M,v,m): return [less(M,v[m],v[k]) for k in range(len(v)) if k!=m]
def pair(v): return [(v[k][0],v[k][1]) for k in range(int(v.n) if hasattr(v,"n") else len(v))]
def distinct(M,v): return [M.OR(M.ne(v[j][0],v[k][0]),M.ne(v[j][1],v[k][1])) for j in range(len(v)) for k in range(j)]
def ways(n,closed): return [(s,d) for s in range(n) for d in(0,1)] if closed else [(0,0),(n-1,1)]
def arranged(v,s,d): n=len(v); return [v[(s-i)%n if d else (s+i)%n] for i in range(n)]
OPT=dict(handlers=[ptnorm,lexorder])
def same_spec(nm,fn,closed,sizes):
    @contract("C23."+nm,fn,"v[]:2 s:0 d:0 m:0",cases=[dict(n=n,s=s,d=d,m=m) for n in sizes for s,d in ways(n,closed) for m in(range(n) if closed else (0,n-1))],bounded="%s points"%" or ".join(map(str,sizes)),
      inp=lambda M,i:[i.s,i.d],pre=lambda M,i:distinct(M,pair(i.v))+(first(M,pair(i.v),i.m) if closed else [less(M,pair(i.v)[i.m],pair(i.v)[len(pair(i.v))-1-i.m])]),feas=60,deadline=100,opts=OPT,nout=32)
    def _(M,i,r):
        v=pair(i.v); n=len(v)
        if r.threw: yield "throws only for points refused by the polyline",M.OR(invalid(M,i.v,closed),invalid(M,Seq(arranged(v,i.s,i.d)),closed)); return
        yield "equal, from either side",M.AND(M.eq(r.ret,1),M.eq(r[0],1),M.eq(r[1],0))
        for b in(2,14):
            yield "the size is kept",M.eq(r[b],n)
            yield "the points are kept, up to the start and the direction",M.OR(*[M.AND(*[same(M,(r[b+2+2*k],r[b+3+2*k]),w[k]) for k in range(n)]) for s,d in ways(n,closed) for w in[arranged(v,s,d)]])
        yield "the length is kept",M.eq(r[26],sum((dist(M,v[k],v[k+1]) for k in range(n-1)),dist(M,v[n-1],v[0]) if closed else M.q(0)))
same_spec("same_closed","eq_same_cp",True,(2,3,4)); same_spec("same_open","eq_same_op",False,(2,3,4))
def near(M,p,q): return M.lt(M.hyp(p[0]-q[0],p[1]-q[1]),M.q(1,10**10))
def two_spec(nm,fn,closed,ks):
    @contract("C23."+nm,fn,"v[]:4 k:0 m:0 m2:0",cases=[dict(n=k+l,k=k,m=m,m2=m2) for k,l in ks for m in(range(k) if closed else(0,k-1)) for m2 in(range(l) if closed else(0,l-1))],bounded="2 or 3 points",
      inp=lambda M,i:[i.k],pre=lambda M,i:sum(((lambda w,m:distinct(M,w)+(first(M,w,m) if closed else [less(M,w[m],w[len(w)-1-m])]))(w,m) for w,m in((pair(i.v)[:i.k],i.m),(pair(i.v)[i.k:],i.m2))),[]),feas=60,deadline=100,opts=OPT,nout=8)
    def _(M,i,r):
        v=pair(i.v); a,b=v[:i.k],v[i.k:]
        if r.threw: yield "throws only for points refused by the polyline",M.OR(invalid(M,Seq(a),closed),invalid(M,Seq(b),closed)); return
        yield "!= is the negation",M.eq(r[1],1-r.ret); yield "symmetric",M.eq(r[0],r.ret)
        if len(a)!=len(b): yield "different sizes: different",M.eq(r.ret,0); return
        yield "equal only if the points are, from some start and in some direction",M.OR(M.eq(r.ret,0),*[M.AND(*[near(M,p,q) for p,q in zip(a,arranged(b,s,d))]) for s,d in ways(len(a),closed)])
two_spec("two_closed","eq_two_cp",True,((2,2),(3,3),(2,3))); two_spec("two_open","eq_two_op",False,((2,2),(3,3),(2,3)))
@contract("C23.mixed","eq_mixed","v[]:3",feas=60,bounded="3 points")
def _(M,i,r):
    if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,True); return
    yield "an open and a closed polyline differ",M.AND(M.eq(r.ret,0),M.eq(r[0],0),M.eq(r[1],1))
def hist_spec(nm,fn,closed):
    @contract("C23."+nm,fn,"v[]:3 h:0,1,2,3,4,5 m:0",cases=[dict(n=3,h=h,m=m) for h in range(6) for m in(range(3) if closed else(0,2))],bounded="3 points",
      inp=lambda M,i:[i.h],pre=lambda M,i:distinct(M,pair(i.v))+(first(M,pair(i.v),i.m) if closed else [less(M,pair(i.v)[i.m],pair(i.v)[2-i.m])]),feas=60,deadline=100,opts=OPT,nout=8)
    def _(M,i,r):
        if r.threw: yield "throws only for points refused by the polyline",invalid(M,i.v,closed); return
        yield "after a comparison and a change: equal to a fresh polyline with the same points",M.AND(M.eq(r.ret,1),M.eq(r[0],1),M.eq(r[1],0),M.eq(r[2],1))
hist_spec("history_closed","eq_hist_cp",True); hist_spec("history_open","eq_hist_op",False)
