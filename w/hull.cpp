// C28: convex hull
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline VP vec(const double* in){ int n=(int)in[0]; VP v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(Point2d(in[1+2*i],in[2+2*i])); return v; }
#define VCV(name) extern "C" int name##_v(const VP&,const double*,double*); VC name(IN){ VP v=vec(in); return name##_v(v,in+1+2*(int)in[0],out); } extern "C" int name##_v(const VP& v,const double* in,double* out)
VCV(hull){ CPolyline h=convexHull(v); const auto& p=h.getPts(); int n=(int)p.size(); for(int k=0;k<n;k++) put(out+2*k,p[k]); return n; }
VCV(hull_poly){ int m=(int)in[0]; CPolyline h; if(m==0){ OPolyline p(v); h=p.convexHull(); } else { CPolyline p(v); h=convexHull(p); } const auto& q=h.getPts(); int n=(int)q.size(); for(int k=0;k<n;k++) put(out+2*k,q[k]); return n; }
