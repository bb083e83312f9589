// C23: comparison of polylines
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline VP vec(const double* in){ int n=(int)in[0]; VP v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(Point2d(in[1+2*i],in[2+2*i])); return v; }
#define VCV(name) extern "C" int name##_v(const VP&,const double*,double*); VC name(IN){ VP v=vec(in); return name##_v(v,in+1+2*(int)in[0],out); } extern "C" int name##_v(const VP& v,const double* in,double* out)
template<typename PL> static inline int cmp(const PL& p,const PL& q,double* out){ int r=(p==q); out[0]=(q==p); out[1]=(p!=q); return r; }
template<typename PL> static inline void rep(const PL& p,double* out){ int n=out[0]=p.size(); for(int i=0;i<n;i++) put(out+2+2*i,p.getPoint(i)); }
// the same points from another start, or in the other direction
template<typename PL> static inline int same(const VP& v,int s,int d,double* out){
	int n=(int)v.size(); VP b; b.reserve(n); for(int i=0;i<n;i++) b.push_back(v[d?(s+n-i)%n:(s+i)%n]);
	PL p(v),q(b); int r=cmp(p,q,out); rep(p,out+2); rep(q,out+14); out[26]=p.length(); return r; }
VCV(eq_same_cp){ return same<CPolyline>(v,(int)in[0],(int)in[1],out); }
VCV(eq_same_op){ return same<OPolyline>(v,(int)in[0],(int)in[1],out); }
// any two
template<typename PL> static inline int two(const VP& v,int k,double* out){ VP a,b; for(size_t i=0;i<v.size();i++) ((int)i<k?a:b).push_back(v[i]); PL p(a),q(b); return cmp(p,q,out); }
VCV(eq_two_cp){ return two<CPolyline>(v,(int)in[0],out); }
VCV(eq_two_op){ return two<OPolyline>(v,(int)in[0],out); }
VCV(eq_mixed){ CPolyline p(v); OPolyline q(v); out[0]=(q==p); out[1]=(p!=q); return p==q; }
// a polyline compared before, then changed, against a fresh one
template<typename PL> static inline int hist(const VP& v,int m,double* out){
	int n=(int)v.size(); VP c{ Point2d(0,0),Point2d(2,0),Point2d(1,3) }, w; w.reserve(n);
	for(int i=0;i<n;i++) w.push_back( m==4 ? Point2d(-v[i].getY(),v[i].getX()) : m==5 ? Point2d(-v[i].getX(),v[i].getY()) : v[i] );
	PL p(m<4?c:v), c2(m<4?c:v), q(w); out[2]=(p==c2);
	switch(m){ case 0: p.set(v); break; case 1: p.getPts()=v; break; case 2: p=PL(v); break; case 3: p.clear(); p.set(v); break; case 4: p.rotate(Rotate::CCW); break; case 5: p.rotate(Rotate::VMirror); break; }
	return cmp(p,q,out); }
VCV(eq_hist_cp){ return hist<CPolyline>(v,(int)in[0],out); }
VCV(eq_hist_op){ return hist<OPolyline>(v,(int)in[0],out); }
