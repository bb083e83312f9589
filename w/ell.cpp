// ellipses: entry points under contract
#include "vc.hpp"
static inline Ellipse E(const double* p){ return Ellipse(P(p),p[2],p[3],p[4]); }
static inline void rep(double* o,const Ellipse& e){ put(o,e.getCenter()); auto m=e.getMajMin(); o[2]=m.first; o[3]=m.second; o[4]=e.angle(); }
// way, x y a b angle
VC ell_make(IN){ int m=(int)in[0]; const double* p=in+1; Ellipse e(P(p),3.,2.,0.);
	switch(m){ case 0: e=Ellipse(P(p),p[2],p[3],p[4]); break; case 1: e=Ellipse(p[0],p[1],p[2],p[3],p[4]); break; case 2: { Ellipse f(E(p)); e=f; } break; }
	rep(out,e); out[5]=e.area(); out[6]=area(e); put(out+7,getCenter(e)); out[9]=angle(e); out[10]=e.isCircle(); return 0; }
VC ell_from_circle(IN){ Ellipse e(Circle(P(in),in[2])); rep(out,e); out[5]=e.area(); out[6]=e.isCircle(); return 0; }
static inline void conic(double* o,const Ellipse& e,double x,double y){ o[0]=e.value(0,0)*x*x+e.value(1,1)*y*y+e.value(2,2)+(e.value(0,1)+e.value(1,0))*x*y+(e.value(0,2)+e.value(2,0))*x+(e.value(1,2)+e.value(2,1))*y; }
VC ell_conic(IN){ Ellipse e=E(in); conic(out,e,in[5],in[6]); out[1]=e.value(0,0); out[2]=e.value(0,1)-e.value(1,0); out[3]=e.value(0,2)-e.value(2,0); out[4]=e.value(1,2)-e.value(2,1); return 0; }
// way, ellipse, two numbers
VC ell_move(IN){ int m=(int)in[0]; Ellipse e=E(in+1);
	switch(m){ case 0: e.translate(in[6],in[7]); break; case 1: e.translate(std::make_pair(in[6],in[7])); break; case 2: e.moveTo(P(in+6)); break; case 3: e.moveTo(in[6],in[7]); break; }
	rep(out,e); return 0; }
VC ell_eq(IN){ Ellipse a=E(in),b=E(in+5); out[0]=(b==a); out[1]=(a!=b); rep(out+2,a); int r=(a==b); rep(out+7,a); return r; }
VC ell_pt(IN){ Ellipse e=E(in); return P(in+5).isInside(e); }
VC ell_seg(IN){ Ellipse e=E(in); out[0]=OSegment(P(in+5),P(in+7)).isInside(e); return Segment(P(in+5),P(in+7)).isInside(e); }
VC ell_bb(IN){ Ellipse e=E(in); put(out,e.getBB()); put(out+4,getBB(e)); return 0; }
VC ell_axis(IN){ Ellipse e=E(in); auto p=e.getAxisLines(); put(out,p.first); put(out+3,p.second); return 0; }
VC ell_obb(IN){ Ellipse e=E(in); auto p=e.getOBB(); out[0]=p.size(); for(int i=0;i<4;i++) put(out+1+2*i,p.getPoint(i)); return 0; }
// homographies
static inline Homogr H6(const double* p){ std::array<std::array<double,3>,3> a={{ {{p[0],p[1],p[2]}},{{p[3],p[4],p[5]}},{{0.,0.,1.}} }}; return Homogr(a); }
VC hom_cir(IN){ Homogr h=H6(in); Ellipse f=h*Circle(P(in+6),in[8]); Point2d q=h*P(in+9); put(out,q); conic(out+2,f,q.getX(),q.getY()); return 0; }
VC hom_ell(IN){ Homogr h=H6(in); Ellipse f=h*E(in+6); Point2d q=h*P(in+11); put(out,q); conic(out+2,f,q.getX(),q.getY()); return 0; }
