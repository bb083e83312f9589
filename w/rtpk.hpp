// objects of every kind, for the units on runtime polymorphism
#include "vc.hpp"
typedef std::vector<Point2d> VP;
static inline Segment S(const double* p){ return Segment(P(p),P(p+2)); }
static inline OSegment OS(const double* p){ return OSegment(P(p),P(p+2)); }
static inline FRect R(const double* p){ return FRect(P(p),P(p+2)); }
static inline Circle C(const double* p){ return Circle(P(p),p[2]); }
static inline Ellipse E(const double* p){ return Ellipse(p[0],p[1],p[2],p[3],p[4]); }
static inline VP V3(const double* p){ VP v; v.reserve(3); for(int i=0;i<3;i++) v.push_back(P(p+2*i)); return v; }
static inline CPolyline CP(const double* p){ return CPolyline(V3(p)); }
static inline OPolyline OP(const double* p){ return OPolyline(V3(p)); }
