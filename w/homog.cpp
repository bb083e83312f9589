// homographies: entry points under contract
#include "vc.hpp"
static inline Homogr H9(const double* p)
{ std::array<std::array<double,3>,3> a={{ {{p[0],p[1],p[2]}},{{p[3],p[4],p[5]}},{{p[6],p[7],p[8]}} }}; return Homogr(a); }
static inline void set9(Homogr& h,const double* p){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) h.set(i,j,p[3*i+j]); }
static inline double* put(double* o,const Homogr& h){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) *o++=h.value(i,j); return o; }
// in: A 9, B 9, p 2
VC hom_compose(IN){ Homogr A=H9(in),B=H9(in+9); Point2d p=P(in+18); put(out,(A*B)*p); put(out+2,A*(B*p)); return 0; }
VC hom_build(IN){ put(out,H9(in)); return 0; }
VC hom_point(IN){ put(out,H9(in)*P(in+9)); return 0; }
VC hom_inverse(IN){ Homogr A=H9(in); Homogr B=A; B.inverse(); put(out,A*B); put(out+9,B*A); return 0; }
VC hom_inverse_pt(IN){ Homogr A=H9(in); Homogr B=A; B.inverse(); put(out,B*(A*P(in+9))); return 0; }
VC hom_transpose(IN){ Homogr A=H9(in); A.transpose(); put(out,A); return 0; }
VC hom_equal_multiple(IN){
	Homogr A,B; double t[9]; for(int i=0;i<9;i++) t[i]=in[i]*in[9];
	set9(A,in); set9(B,t); int r=(A==B); int s=(B==A); int n=(A!=B); out[0]=r; out[1]=s; out[2]=n; return r; }
VC hom_equal_assigned(IN){   // comparison after assignment of a matrix that is not normalised
	Homogr A,B,C; double t[9]; for(int i=0;i<9;i++) t[i]=in[i]*in[9];
	set9(A,in); set9(B,t); C=B; return A==C; }
VC hom_equal(IN){ return H9(in)==H9(in+9); }
static inline void mutate(Homogr& h,int m,const double* p)
{
	switch(m){
		case 0: break;
		case 1: h.init(); break;
		case 2: h.set(0,1,p[0]); h.set(1,2,p[1]); break;
		case 3: h.setTranslation(p[0],p[1]); break;
		case 4: h.setRotation(p[0]); break;
		case 5: h.setScale(p[0],p[1]); break;
		case 6: h.addTranslation(p[0],p[1]); break;
		case 7: h.addRotation(p[0]); break;
		case 8: h.addScale(p[0],p[1]); break;
		case 9: h.inverse(); break;
		case 10: h.transpose(); break;
		case 11: { Homogr g(p[0],p[1]); h=g; } break;
		case 12: { Homogr g(p[0],p[1]); h=g*h; } break;
		case 13: h.value(0,1)=p[0]; break;
		case 14: h.addScale(p[0]); break;
		case 15: h.setScale(p[0]); break;
		case 16: h.normalize(); break;
	}
}
// in: op, used before, H 9, two op parameters, two points of a line
VC hom_line(IN){
	int m=(int)in[0]; int used=(int)in[1];
	Homogr h=H9(in+2); const double* q=in+13;
	Point2d a=P(q),b=P(q+2);
	Line2d l=a*b;
	if( used ){ Line2d l0=h*l; (void)l0; }
	mutate(h,m,in+11);
	Point2d ha=h*a,hb=h*b;
	put(out,ha); put(out+2,hb);
	put(out+4,h*l);
	return 0;
}
// builders. in: op, H 9, params 2, point
VC hom_builder(IN){ Homogr h=H9(in+1); mutate(h,(int)in[0],in+10); put(out,h*P(in+12)); return 0; }
VC hom_ctor1(IN){ Homogr h(in[0]); put(out,h*P(in+1)); return 0; }
VC hom_ctor2(IN){ Homogr h(in[0],in[1]); put(out,h*P(in+2)); return 0; }
VC hom_ctor0(IN){ Homogr h; put(out,h*P(in)); return 0; }
// shapes.  in: H 9, shape
VC hom_seg(IN){ Homogr h=H9(in); Segment s(P(in+9),P(in+11)); put(out,h*s); put(out+4,h*P(in+9)); put(out+6,h*P(in+11)); return 0; }
VC hom_oseg(IN){ Homogr h=H9(in); OSegment s(P(in+9),P(in+11)); put(out,h*s); put(out+4,h*P(in+9)); put(out+6,h*P(in+11)); return 0; }
VC hom_rect(IN){ Homogr h=H9(in); FRect r(P(in+9),P(in+11)); auto pl=h*r; auto p4=r.get4Pts(); out[0]=pl.size();
	for(int i=0;i<4;i++){ put(out+1+4*i,pl.getPoint(i)); put(out+3+4*i,h*p4[i]); } return 0; }
VC hom_arr(IN){ Homogr h=H9(in); std::array<Point2d,2> v={P(in+9),P(in+11)}; auto w=h*v; put(out,w[0]); put(out+2,w[1]); put(out+4,h*v[0]); put(out+6,h*v[1]); return 0; }
VC hom_vec(IN){ Homogr h=H9(in); std::vector<Point2d> v={P(in+9),P(in+11),P(in+13)}; auto w=h*v; out[0]=w.size(); for(int i=0;i<3;i++){ put(out+1+2*i,w[i]); put(out+7+2*i,h*v[i]); } return 0; }
VC hom_apply(IN){ Homogr h=H9(in); std::vector<Point2d> v={P(in+9),P(in+11)}; auto w=v; h.applyTo(w); out[0]=w.size(); for(int i=0;i<2;i++){ put(out+1+2*i,w[i]); put(out+5+2*i,h*v[i]); } return 0; }
VC hom_cpoly(IN){ Homogr h=H9(in); std::vector<Point2d> v={P(in+9),P(in+11),P(in+13)}; CPolyline p(v); auto w=h*p; out[0]=w.size(); for(int i=0;i<3;i++){ put(out+1+2*i,w.getPoint(i)); put(out+7+2*i,h*v[i]); } return 0; }
VC hom_opoly(IN){ Homogr h=H9(in); std::vector<Point2d> v={P(in+9),P(in+11),P(in+13)}; OPolyline p(v); auto w=h*p; out[0]=w.size(); for(int i=0;i<3;i++){ put(out+1+2*i,w.getPoint(i)); put(out+7+2*i,h*v[i]); } return 0; }
