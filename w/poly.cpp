// containers of points and polylines: entry points under contract.
// NAME_v takes the container; NAME (in[0]=n, then n points, then other values) builds it first.
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline VP vec(const double* in){ int n=(int)in[0]; VP v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(Point2d(in[1+2*i],in[2+2*i])); return v; }
#define VCV(name) extern "C" int name##_v(const VP&,const double*,double*); VC name(IN){ VP v=vec(in); return name##_v(v,in+1+2*(int)in[0],out); } extern "C" int name##_v(const VP& v,IN)
static inline Rotate ROT(double m){ return m==0?Rotate::CCW: m==1?Rotate::CW: m==2?Rotate::Full: m==3?Rotate::VMirror:Rotate::HMirror; }
// C26
VCV(ext_t){ auto r=getTmPoint(v); put(out,r.first); out[2]=r.second; return 0; }
VCV(ext_b){ auto r=getBmPoint(v); put(out,r.first); out[2]=r.second; return 0; }
VCV(ext_l){ auto r=getLmPoint(v); put(out,r.first); out[2]=r.second; return 0; }
VCV(ext_r){ auto r=getRmPoint(v); put(out,r.first); out[2]=r.second; return 0; }
static inline CardDir CD(int m){ return m==0?CardDir::Top: m==1?CardDir::Bottom: m==2?CardDir::Left: CardDir::Right; }
VCV(ext_dir){ auto r=getExtremePoint(CD((int)in[0]),v); put(out,r.first); out[2]=r.second; return 0; }
template<typename PL> static inline Point2d ext_pl(const PL& p,int m,int w){
	if( w==1 ) return p.getExtremePoint(CD(m));
	if( w==2 ) return m==0?getTmPoint(p): m==1?getBmPoint(p): m==2?getLmPoint(p): getRmPoint(p);
	return m==0?p.getTmPoint(): m==1?p.getBmPoint(): m==2?p.getLmPoint(): p.getRmPoint(); }
VCV(ext_cp){ CPolyline p(v); put(out,ext_pl(p,(int)in[0],(int)in[1])); return 0; }
VCV(ext_op){ OPolyline p(v); put(out,ext_pl(p,(int)in[0],(int)in[1])); return 0; }
// C25
VCV(bb_pts){ put(out,getBB(v)); return 0; }
VCV(bb_cp){ CPolyline p(v); put(out,p.getBB()); return 0; }
VCV(bb_op){ OPolyline p(v); put(out,p.getBB()); return 0; }
VCV(bb_segs){ std::vector<Segment> s; int n=(int)v.size()/2; s.reserve(n); for(int i=0;i<n;i++) s.push_back(Segment(v[2*i],v[2*i+1])); put(out,getBB(s)); return 0; }
VCV(bb_rects){ std::vector<FRect> s; int n=(int)v.size()/2; s.reserve(n); for(int i=0;i<n;i++) s.push_back(FRect(v[2*i],v[2*i+1])); put(out,getBB(s)); return 0; }
VCV(bb_cirs){ std::vector<Circle> s; int n=(int)v.size(); s.reserve(n); for(int i=0;i<n;i++) s.push_back(Circle(v[i],in[i])); put(out,getBB(s)); return 0; }
// C27
VCV(near_){ Point2d q=P(in); out[0]=findNearestPoint(q,v); return 0; }
VCV(far_){ Point2d q=P(in); out[0]=findFarthestPoint(q,v); return 0; }
VCV(nearfar){ Point2d q=P(in); auto r=findNearestFarthestPoint(q,v); out[0]=r.first; out[1]=r.second; return 0; }
VCV(closest){ int k=(int)in[0]; VP a(v.begin(),v.begin()+k), b(v.begin()+k,v.end()); OPolyline p(a),q(b); auto r=getClosestPoints(p,q); auto pp=r.getPoints(); auto ii=r.getIndexes(); put(out,pp.first); put(out+2,pp.second); out[4]=ii.first; out[5]=ii.second; out[6]=r.getMinDist(); return 0; }
// C21
template<typename PL> static inline int meas(const PL& p,double* out){ out[0]=p.size(); out[1]=p.nbSegs(); out[2]=p.length(); out[3]=length(p); return 0; }
VCV(len_cp){ CPolyline p(v); return meas(p,out); }
VCV(len_op){ OPolyline p(v); return meas(p,out); }
template<typename PL> static inline int seg_i(const PL& p,size_t i,double* out){ put(out,p.getOSegment(i)); put(out+4,p.getSegment(i)); put(out+8,p.getPoint(i)); return 0; }
VCV(seg_cp){ CPolyline p(v); return seg_i(p,(size_t)in[0],out); }
VCV(seg_op){ OPolyline p(v); return seg_i(p,(size_t)in[0],out); }
template<typename PL> static inline int segs_i(const PL& p,size_t i,double* out){ auto a=p.getOSegs(); auto b=p.getSegs(); out[0]=a.size(); out[1]=b.size(); if( i>=a.size() || i>=b.size() ) return 1; put(out+2,a[i]); put(out+6,b[i]); return 0; }
VCV(segs_cp){ CPolyline p(v); return segs_i(p,(size_t)in[0],out); }
VCV(segs_op){ OPolyline p(v); return segs_i(p,(size_t)in[0],out); }
VCV(area_cp){ CPolyline p(v); out[0]=p.isSimple(); out[1]=p.area(); out[2]=area(p); return 0; }
VCV(simple_cp){ CPolyline p(v); out[0]=p.isSimple(); int any=0; size_t n=v.size(); for(size_t i=0;i<n && !any;i++) for(size_t j=i+2;j<n && !any;j++) if( !(i==0 && j==n-1) && Segment(v[i],v[i+1]).intersects(Segment(v[j],v[(j+1)%n]))() ) any=1; out[1]=any; return 0; }
VCV(convex_cp){ CPolyline p(v); out[0]=p.isConvex(); out[1]=p.isSimple(); out[2]=isConvex(p); return 0; }
VCV(open_op){ OPolyline p(v); out[0]=p.isConvex(); out[1]=p.isSimple(); out[2]=isConvex(p); return 0; }
VCV(area_op){ OPolyline p(v); out[0]=p.isSimple(); out[1]=p.area(); return 0; }
VCV(centroid){ CPolyline p(v); if( !p.isSimple() ){ try { p.centroid(); } catch( const std::runtime_error& ) { return 0; } return 2; } put(out,p.centroid()); return 1; }
