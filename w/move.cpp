// C24: translate, moveTo and rotate, member and free functions
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline VP vec(const double* in){ int n=(int)in[0]; VP v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(Point2d(in[1+2*i],in[2+2*i])); return v; }
#define VCV(name) extern "C" int name##_v(const VP&,const double*,double*); VC name(IN){ VP v=vec(in); return name##_v(v,in+1+2*(int)in[0],out); } extern "C" int name##_v(const VP& v,const double* in,double* out)
static inline Rotate ROT(int m){ return m==0?Rotate::CCW: m==1?Rotate::CW: m==2?Rotate::Full: m==3?Rotate::VMirror:Rotate::HMirror; }
template<typename T> static inline void move(T& p,int m,const double* q){
	switch(m){
		case 0: p.translate(q[0],q[1]); break; case 1: p.translate(std::make_pair(q[0],q[1])); break;
		case 2: translate(p,q[0],q[1]); break; case 3: translate(p,std::make_pair(q[0],q[1])); break;
		case 4: p.moveTo(P(q)); break; case 5: moveTo(p,P(q)); break; } }
template<typename T> static inline void move2(T& p,int m,const double* q){
	switch(m){ case 6: p.moveTo(q[0],q[1]); break; case 7: moveTo(p,q[0],q[1]); break; default: move(p,m,q); } }
template<typename T> static inline void turn(T& p,int w,int m,const double* q){
	switch(w){ case 0: p.rotate(ROT(m)); break; case 1: rotate(p,ROT(m)); break; case 2: p.rotate(ROT(m),P(q)); break; case 3: rotate(p,ROT(m),P(q)); break; } }
template<typename PL> static inline int at(const PL& p,size_t t,double* out){ out[0]=p.size(); put(out+1,p.getPoint(t)); const auto& c=p.getPts(); out[3]=c.size(); put(out+4,c[t]); return 0; }
VCV(mv_cp){ CPolyline p(v); move2(p,(int)in[0],in+2); const CPolyline& c=p; return at(c,(size_t)in[1],out); }
VCV(mv_op){ OPolyline p(v); move2(p,(int)in[0],in+2); const OPolyline& c=p; return at(c,(size_t)in[1],out); }
template<typename PL> static inline void turnp(PL& p,int w,int m,const double* q){ if(w==4) p.rotate(ROT(m),p.getPts()[0]); else if(w==5) rotate(p,ROT(m),p.getPts()[0]); else turn(p,w,m,q); }
VCV(tn_cp){ CPolyline p(v); turnp(p,(int)in[0],(int)in[1],in+3); const CPolyline& c=p; return at(c,(size_t)in[2],out); }
VCV(tn_op){ OPolyline p(v); turnp(p,(int)in[0],(int)in[1],in+3); const OPolyline& c=p; return at(c,(size_t)in[2],out); }
VC mv_pt(IN){ Point2d p=P(in+1); move(p,(int)in[0],in+3); put(out,p); return 0; }
VC mv_ptw(IN){ Point2d p(in[1],in[2],in[3]); move(p,(int)in[0],in+4); put(out,p); return 0; }
VC mv_seg(IN){ Segment p(P(in+1),P(in+3)); move2(p,(int)in[0],in+5); put(out,p); return 0; }
VC mv_oseg(IN){ OSegment p(P(in+1),P(in+3)); move2(p,(int)in[0],in+5); put(out,p); return 0; }
VC mv_rect(IN){ FRect p(P(in+1),P(in+3)); move2(p,(int)in[0],in+5); put(out,p); return 0; }
VC tn_rect(IN){ FRect p(P(in+2),P(in+4)); turn(p,(int)in[0],(int)in[1],in+6); put(out,p); return 0; }
VC mv_cir(IN){ Circle p(P(in+1),in[3]); move2(p,(int)in[0],in+4); put(out,p.center()); out[2]=p.radius(); put(out+3,p.getCenter()); return 0; }
VC pt_norm(IN){ Point2d p(in[0],in[1],in[2]); auto a=p.get(); out[0]=a[0]; out[1]=a[1]; out[2]=a[2]; return 0; }
