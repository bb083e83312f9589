// Common part of the wrapper units: the code under verification is /repo/homog2d.hpp itself.
#ifndef VC_HPP
#define VC_HPP
#include "homog2d.hpp"
using namespace h2d;
#define VC extern "C" int
#define IN const double* in, double* out
static inline Point2d P(const double* p){ return Point2d(p[0],p[1]); }
template<typename T> static inline double* put(double* o,const Point2d_<T>& p){ o[0]=p.getX(); o[1]=p.getY(); return o+2; }
static inline Line2d L(const double* p){ return Line2d(p[0],p[1],p[2]); }
template<typename T> static inline double* put(double* o,const Line2d_<T>& l){ auto a=l.get(); o[0]=a[0]; o[1]=a[1]; o[2]=a[2]; return o+3; }
template<typename T> static inline double* put(double* o,const Segment_<T>& s){ auto p=s.getPts(); put(o,p.first); put(o+2,p.second); return o+4; }
template<typename T> static inline double* put(double* o,const OSegment_<T>& s){ auto p=s.getPts(); put(o,p.first); put(o+2,p.second); return o+4; }
template<typename T> static inline double* put(double* o,const FRect_<T>& s){ auto p=s.getPts(); put(o,p.first); put(o+2,p.second); return o+4; }
#endif
