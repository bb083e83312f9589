// C34: access through a variant, and to the object itself
#define HOMOG2D_ENABLE_VRTP
#include "rtpk.hpp"
// clang instantiates this constructor (refused by a static_assert, never called) when it looks for the alternative of a variant; gcc does not
namespace h2d { namespace base { template<> template<> inline PolylineBase<typ::IsOpen,double>::PolylineBase( const CPolyline_<double>& ) { throw 0; } } }
// through a variant, and from the object
template<typename T> static inline double fre(const T& t,int q){ return q==0? length(t): q==1? area(t): q==2? (double)(int)type(t): q==3? (double)size(t): (double)(int)dtype(t); }
template<typename T> static inline double own(const T& t,int q){ return q==0? t.length(): q==1? t.area(): q==2? (double)(int)t.type(): q==3? (double)t.size(): (double)(int)t.dtype(); }
template<typename T> static inline void var(const T& t,const double* in,double* out){ int q=(int)in[0]; CommonType v(std::in_place_type<T>,t); out[0]=fre(v,q); out[1]=own(t,q); }
template<typename T> static inline void obj(const T& t,const double* in,double* out){ int q=(int)in[0]; out[0]=fre(t,q); out[1]=own(t,q); }
#define KIND(n,x) VC rtp_var_##n(IN){ var(x(in+1),in,out); return 0; } VC rtp_obj_##n(IN){ obj(x(in+1),in,out); return 0; }
KIND(p,P) KIND(l,L) KIND(s,S) KIND(o,OS) KIND(r,R) KIND(c,C) KIND(e,E) KIND(cp,CP) KIND(op,OP)
// a homography through a variant
static inline Homogr H(const double* p){ Homogr h; for(int i=0;i<3;i++) for(int j=0;j<3;j++) h.set(i,j,p[3*i+j]); return h; }
template<typename T> static inline CommonType tr(const T& t,const double* in){ CommonType v(std::in_place_type<T>,t); return transform(H(in),v); }
#define TR(n,x) VC rtp_tr_##n(IN){ out[2]=0; auto d=H(in)*x(in+9); out[2]=1; CommonType v=tr(x(in+9),in); typedef decltype(d) D; const D* r=std::get_if<D>(&v); out[0]=v.index(); out[1]=(r!=nullptr); if( r ){ put(out+10,*r); put(out+30,d); } return 0; }
static inline double* put(double* o,const Ellipse& e){ const double* m=reinterpret_cast<const double*>(&e); for(int i=0;i<9;i++) o[i]=m[i]; return o+9; }      // the conic matrix, as stored
template<typename PL> static inline double* putp(double* o,const PL& p){ o[0]=p.size(); for(size_t i=0;i<p.size();i++) put(o+1+2*i,p.getPoint(i)); return o; }
static inline double* put(double* o,const CPolyline& p){ return putp(o,p); }
static inline double* put(double* o,const OPolyline& p){ return putp(o,p); }
TR(p,P) TR(l,L) TR(s,S) TR(o,OS) TR(r,R) TR(cp,CP) TR(op,OP) TR(c,C) TR(e,E)
