// C22: readers, a mutator, the readers again; and the readers on a fresh polyline of the same points (used when an input is searched)
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline VP vec(const double* in){ int n=(int)in[0]; VP v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(Point2d(in[1+2*i],in[2+2*i])); return v; }
#define VCV(name) extern "C" int name##_v(const VP&,const double*,double*); VC name(IN){ VP v=vec(in); return name##_v(v,in+1+2*(int)in[0],out); } extern "C" int name##_v(const VP& v,const double* in,double* out)
static inline Rotate ROT(int m){ return m==0?Rotate::CCW: m==1?Rotate::CW: m==2?Rotate::Full: m==3?Rotate::VMirror:Rotate::HMirror; }
// the verifier takes the answers of the segment intersections that follow from the argument, see phases in vc/core.py
extern "C" __attribute__((noinline)) void vc_phase(double){ asm volatile(""); }
template<typename PL> static inline void mut(PL& p,int m,const double* q){
	switch(m){
		case 0: p.translate(q[0],q[1]); break; case 1: p.translate(std::make_pair(q[0],q[1])); break; case 2: p.moveTo(P(q)); break; case 3: p.moveTo(q[0],q[1]); break;
		case 4: case 5: case 6: case 7: case 8: p.rotate(ROT(m-4)); break;
		case 9: case 10: case 11: case 12: case 13: p.rotate(ROT(m-9),P(q)); break;
		case 14: for( auto& pt: p.getPts() ) pt.set( 2.*pt.getX(), 3.*pt.getY() ); break;
	} }
// q: 0 length, 1 simplicity, area and centroid, 2 bounding box
template<typename PL> static inline void readall(const PL& p,int q,double* out){
	if( q==0 ) out[0]=p.length();
	else if( q==2 ) put(out,p.getBB());
	else { out[0]=p.isSimple(); out[1]=p.area(); if( out[0] ) put(out+2,p.centroid()); else out[2]=out[3]=0.; } }
template<typename PL> static inline int stale(const VP& v,const double* in,double* out){
	int q=(int)in[0];
	PL p(v); vc_phase(in[2]); readall(p,q,out+10);
	mut(p,(int)in[1],in+4); vc_phase(in[3]); readall(p,q,out);
	return 0; }
template<typename PL> static inline void fresh(const VP& v,const double* in,double* out){
	int q=(int)in[0];
	PL p(v); mut(p,(int)in[1],in+4); const PL& c=p; PL f( c.getPts() ); readall(f,q,out+20); }
VCV(st_cp){ if( in[2]==2 ) fresh<CPolyline>(v,in,out); return stale<CPolyline>(v,in,out); }
VCV(st_op){ if( in[2]==2 ) fresh<OPolyline>(v,in,out); return stale<OPolyline>(v,in,out); }
// set and assignment: 4 other points, or the rectangle of the first and third of them
static inline void reset(CPolyline& p,int m,const VP& w){
	switch(m){
		case 0: p.set(w); break; case 1: p=CPolyline(w); break; case 2: { CPolyline t(w); p=t; } break;
		case 3: p.set( FRect(w[0],w[2]) ); break; case 4: p.clear(); p.set(w); break; } }
static inline int st_set(CPolyline& p,int q,int m,const VP& w,const double* in,double* out){
	vc_phase(in[2]); readall(p,q,out+10); reset(p,m,w); vc_phase(in[3]); readall(p,q,out); return 0; }
VCV(st_set){ VP w; w.reserve(4); for(int i=0;i<4;i++) w.push_back(P(in+4+2*i)); if( in[2]==2 ){ CPolyline f; reset(f,(int)in[1],w); readall(f,(int)in[0],out+20); } CPolyline p(v); return st_set(p,(int)in[0],(int)in[1],w,in,out); }
