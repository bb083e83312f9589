// pairs of objects: entry points under contract
#include "vc.hpp"
static inline FRect R(const double* p){ return FRect(P(p),P(p+2)); }
static inline Segment S(const double* p){ return Segment(P(p),P(p+2)); }
static inline Circle C(const double* p){ return Circle(P(p),p[2]); }
template<typename A,typename B> static inline int bb(const A& a,const B& b,double* out){ put(out,getBB(a,b)); return 0; }
#define PAIR(n,x,y) VC bb_##n(IN){ return bb(x(in),y(in+4),out); }
PAIR(pp,P,P) PAIR(ps,P,S) PAIR(pc,P,C) PAIR(pr,P,R) PAIR(ss,S,S) PAIR(sc,S,C) PAIR(sr,S,R) PAIR(cc,C,C) PAIR(cr,C,R) PAIR(rr,R,R)
VC bb_c(IN){ put(out,getBB(C(in))); return 0; }
VC bb_r(IN){ put(out,getBB(R(in))); return 0; }
