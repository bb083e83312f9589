// circles and rectangles: entry points under contract
#include "vc.hpp"
static inline Segment S(const double* p){ return Segment(P(p),P(p+2)); }
static inline FRect R(const double* p){ return FRect(P(p),P(p+2)); }
static inline Circle C(const double* p){ return Circle(P(p),p[2]); }
static inline double* put(double* o,const Circle& c){ put(o,c.center()); o[2]=c.radius(); return o+3; }
template<typename T> static inline int putM(double* o,const T& m){ auto v=m.get(); for(size_t i=0;i<v.size();i++) put(o+2*i,v[i]); return (int)v.size(); }
VC cir2(IN){ int m=(int)in[0]; Circle c; if(m==0) c=Circle(P(in+1),P(in+3)); if(m==1) c.set(P(in+1),P(in+3)); put(out,c); return 0; }
VC cir3(IN){ int m=(int)in[0]; Circle c; if(m==0) c=Circle(P(in+1),P(in+3),P(in+5)); if(m==1) c.set(P(in+1),P(in+3),P(in+5)); if(m==2){ c=Circle(P(in+1),1.); c.set(c.center(),P(in+3),P(in+5)); } put(out,c); return 0; }
VC collinear(IN){ return areCollinear(P(in),P(in+2),P(in+4)); }
// way, x, y, radius
VC cir_make(IN){ int m=(int)in[0]; const double* p=in+1; Circle c(P(p),3.);
	switch(m){
		case 0: c=Circle(P(p),p[2]); break; case 1: c=Circle(p[0],p[1],p[2]); break; case 2: c.set(P(p),p[2]); break;
		case 3: c.set(p[0],p[1],p[2]); break; case 4: { Circle d(p[2]); c=d; c.set(P(p)); } break;
		case 5: { Circle d(P(p),p[2]); Circle e(d); c=e; } break;
	}
	put(out,c); out[3]=c.area(); out[4]=c.length(); out[5]=area(c); out[6]=length(c); put(out+7,c.getCenter()); return 0; }
VC cir_move(IN){ int m=(int)in[0]; Circle c=C(in+1);
	switch(m){ case 0: c.translate(in[4],in[5]); break; case 1: c.translate(std::make_pair(in[4],in[5])); break; case 2: c.moveTo(P(in+4)); break; case 3: c.moveTo(in[4],in[5]); break; }
	put(out,c); return 0; }
VC cir_eq(IN){ Circle a=C(in),b=C(in+3); out[0]=(b==a); out[1]=(a!=b); return a==b; }
VC cir_bb(IN){ Circle a=C(in); put(out,a.getBB()); return 0; }
VC cir_line(IN){ Circle c=C(in); Line2d l=L(in+3); auto r=l.intersects(c); auto q=c.intersects(l); auto s=l.intersects(P(in),in[2]); out[0]=r(); out[1]=q(); out[2]=s();
	if( r() ){ auto p=r.get(); put(out+3,p.first); put(out+5,p.second); } if( q() ){ auto p=q.get(); put(out+7,p.first); put(out+9,p.second); } return r(); }
VC cir_cir(IN){ Circle a=C(in),b=C(in+3); auto r=a.intersects(b); auto q=b.intersects(a); out[0]=r.size(); out[1]=q.size(); out[2]=r(); if( r() ) putM(out+3,r); if( q() ) putM(out+7,q); return r(); }
VC seg_cir(IN){ Segment s=S(in); Circle c=C(in+4); auto r=s.intersects(c); out[0]=r.size(); out[1]=r(); if( r() ) putM(out+2,r); return (int)r.size(); }
// containment
VC pt_in_cir(IN){ Circle c=C(in); out[0]=P(in+3).isInside(P(in),in[2]); return P(in+3).isInside(c); }
VC seg_in_cir(IN){ Circle c=C(in); OSegment o(P(in+3),P(in+5)); out[0]=o.isInside(c); return S(in+3).isInside(c); }
VC rect_in_cir(IN){ Circle c=C(in); return R(in+3).isInside(c); }
VC cir_in_cir(IN){ return C(in+3).isInside(C(in)); }
VC cir_in_rect(IN){ Circle c=C(in); out[0]=c.isInside(P(in+3),P(in+5)); return c.isInside(R(in+3)); }
VC pt_in_rect(IN){ out[0]=P(in).isInside(P(in+2),P(in+4)); return P(in).isInside(R(in+2)); }
VC seg_in_rect(IN){ OSegment o(P(in),P(in+2)); out[0]=o.isInside(R(in+4)); return S(in).isInside(R(in+4)); }
VC rect_in_rect(IN){ return R(in).isInside(R(in+4)); }
// rectangles: way, four numbers
VC rect_make(IN){ int m=(int)in[0]; const double* p=in+1; FRect r;
	switch(m){
		case 0: r=FRect(P(p),P(p+2)); break; case 1: r=FRect(p[0],p[1],p[2],p[3]); break; case 2: r=FRect(std::make_pair(P(p),P(p+2))); break;
		case 3: r.set(P(p),P(p+2)); break; case 4: r.set(p[0],p[1],p[2],p[3]); break; case 5: { FRect a(P(p),P(p+2)); FRect b(a); r=b; } break;
	}
	put(out,r); return 0; }
VC rect_wh(IN){ FRect r(P(in),in[2],in[3]); put(out,r); return 0; }
VC rect_set_fail(IN){ FRect r=R(in); try{ r.set(P(in+4),P(in+6)); } catch(const std::exception&){} put(out,r); return 0; }
VC rect_move(IN){ int m=(int)in[0]; FRect r=R(in+1);
	switch(m){ case 0: r.translate(in[5],in[6]); break; case 1: r.translate(std::make_pair(in[5],in[6])); break; case 2: r.moveTo(P(in+5)); break; case 3: r.moveTo(in[5],in[6]); break; }
	put(out,r); return 0; }
VC rect_meas(IN){ FRect r=R(in); out[0]=r.width(); out[1]=r.height(); out[2]=r.area(); out[3]=r.length(); put(out+4,r.getCenter()); out[6]=area(r); out[7]=length(r); put(out+8,getCenter(r)); return 0; }
VC rect_pts(IN){ FRect r=R(in); auto a=r.get4Pts(); for(int i=0;i<4;i++) put(out+2*i,a[i]); auto b=get4Pts(r); for(int i=0;i<4;i++) put(out+8+2*i,b[i]); return 0; }
VC rect_segs(IN){ FRect r=R(in); auto a=r.getSegs(); for(int i=0;i<4;i++) put(out+4*i,a[i]); auto d=r.getDiagonals(); put(out+16,d.first); put(out+20,d.second); return 0; }
VC rect_derived(IN){ FRect r=R(in); put(out,r.getExtended()); put(out+4,r.getBB()); put(out+8,r.getBoundingCircle()); put(out+11,r.getInscribedCircle()); return 0; }
VC rect_eq(IN){ FRect a=R(in),b=R(in+4); out[0]=(b==a); out[1]=(a!=b); return a==b; }
VC rect_rot(IN){ int m=(int)in[0]; FRect r=R(in+1); Rotate t= m==0?Rotate::CCW: m==1?Rotate::CW: m==2?Rotate::Full: m==3?Rotate::VMirror:Rotate::HMirror; r.rotate(t); put(out,r); return 0; }
VC rect_rotp(IN){ int m=(int)in[0]; FRect r=R(in+1); Rotate t= m==0?Rotate::CCW: m==1?Rotate::CW: m==2?Rotate::Full: m==3?Rotate::VMirror:Rotate::HMirror; r.rotate(t,P(in+5)); put(out,r); return 0; }
