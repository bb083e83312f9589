// C16: two rectangles
#include "vc.hpp"
static inline FRect R(const double* p){ return FRect(P(p),P(p+2)); }
template<typename T> static inline int ia(const T& a,double* out){ out[0]=a(); if( a() ) put(out+1,a.get()); return 0; }
VC rr_inter(IN){ FRect a=R(in),b=R(in+4); return ia(a.intersectArea(b),out); }
VC rr_free(IN){ FRect a=R(in),b=R(in+4); return ia(intersectArea(a,b),out); }
VC rr_op(IN){ FRect a=R(in),b=R(in+4); return ia(a&b,out); }
VC rr_iou(IN){ FRect a=R(in),b=R(in+4); out[0]=IoU(a,b); return 0; }
static inline int un(const CPolyline& p,double* out){ int n=out[0]=p.size(); for(int i=0;i<n;i++) put(out+1+2*i,p.getPoint(i)); return 0; }
VC rr_union(IN){ FRect a=R(in),b=R(in+4); return un(a.unionArea(b),out); }
VC rr_ufree(IN){ FRect a=R(in),b=R(in+4); return un(unionArea(a,b),out); }
VC rr_uop(IN){ FRect a=R(in),b=R(in+4); return un(a|b,out); }
