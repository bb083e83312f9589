// C34: access through a base-class pointer.  NOSUMMARY FLAGS: -std=c++20
#define HOMOG2D_ENABLE_PRTP
#include "rtpk.hpp"
// through a pointer to the base class, and from the object
static double __attribute__((noinline)) what(const rtp::Root* p,int q){ return q==0? p->length(): q==1? p->area(): q==2? (double)(int)p->type(): (double)p->size(); }
template<typename T> static inline double own(const T& t,int q){ return q==0? t.length(): q==1? t.area(): q==2? (double)(int)t.type(): (double)t.size(); }
template<typename T> static inline void ptr(const T& t,const double* in,double* out){ int q=(int)in[0]; out[0]=what(&t,q); out[1]=own(t,q); }
#define KIND(n,x) VC rtp_ptr_##n(IN){ ptr(x(in+1),in,out); return 0; }
KIND(p,P) KIND(l,L) KIND(s,S) KIND(o,OS) KIND(r,R) KIND(c,C) KIND(e,E) KIND(cp,CP) KIND(op,OP)
