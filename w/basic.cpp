// points, lines: entry points under contract
#include "vc.hpp"
static inline Point2d PH(const double* p){ return Point2d(p[0],p[1],p[2]); }
VC dist_pp(IN){ out[0]=P(in).distTo(P(in+2)); out[1]=P(in+2).distTo(P(in)); return 0; }
VC dist_pp_h(IN){ Point2d a=PH(in),b=PH(in+3); out[0]=a.distTo(b); out[1]=a.getX(); out[2]=a.getY(); return a==b; }
VC dist_pl(IN){ out[0]=P(in).distTo(L(in+2)); out[1]=L(in+2).distTo(P(in)); return 0; }
VC dist_plh(IN){ out[0]=PH(in).distTo(L(in+3)); return 0; }
VC orthog_seg(IN){ Line2d l=L(in); OSegment s=l.getOrthogSegment(P(in+3)); put(out,s); return 0; }
VC line_pp(IN){ Point2d a=P(in),b=P(in+2); Line2d l=a*b; put(out,l); put(out+3,b*a); put(out+6,Line2d(a,b)); put(out+9,Line2d(in[0],in[1],in[2],in[3])); return 0; }
VC line_pp_h(IN){ Point2d a=PH(in),b=PH(in+3); put(out,a*b); put(out+3,Line2d(a,b)); return 0; }
VC line_or(IN){ put(out,Line2d(P(in))); put(out+3,Line2d(in[0],in[1])); return 0; }
VC line_dir(IN){ put(out,Line2d(LineDir::V,in[0])); put(out+3,Line2d(LineDir::H,in[1])); put(out+6,Line2d(LineDir::V,P(in))); put(out+9,Line2d(LineDir::H,P(in))); return 0; }
VC pt_ll(IN){ Line2d a=L(in),b=L(in+3); put(out,a*b); put(out+2,b*a); put(out+4,Point2d(a,b)); return 0; }
VC inter_ll(IN){ Line2d a=L(in),b=L(in+3); auto r=a.intersects(b); auto q=b.intersects(a); out[0]=r(); out[1]=q(); if( r() ) put(out+2,r.get()); if( q() ) put(out+4,q.get()); return r(); }
// angles
VC angle_ll(IN){ Line2d a=L(in),b=L(in+3); out[0]=a.getAngle(b); out[1]=b.getAngle(a); out[2]=getAngle(a,b); return 0; }
VC par_ll(IN){ Line2d a=L(in),b=L(in+3); bool p=a.isParallelTo(b); out[0]=b.isParallelTo(a); return p; }
VC orthog_line(IN){ Line2d l=L(in); put(out,l.getOrthogLine(P(in+3))); return 0; }
VC orthog_line_gc(IN){ Line2d l=L(in+1); put(out,l.getOrthogLine(in[0]?GivenCoord::Y:GivenCoord::X,in[4])); return 0; }
VC par_line(IN){ Line2d l=L(in); put(out,l.getParallelLine(P(in+3))); return 0; }
VC par_lines(IN){ Line2d l=L(in); auto p=l.getParallelLines(in[3]); put(out,p.first); put(out+3,p.second); put(out+6,l); return 0; }
VC par_dist(IN){ Line2d l=L(in),m=L(in+3); out[0]=getParallelDistance(l,m); out[1]=getParallelDistance(m,l); return 0; }
VC par_dist2(IN){ Line2d l=L(in); auto p=l.getParallelLines(in[3]); out[0]=getParallelDistance(l,p.first); out[1]=getParallelDistance(p.second,l); return 0; }
VC rot_line(IN){ Line2d l=L(in); put(out,l.getRotatedLine(P(in+3),in[5])); return 0; }
// sampling
VC coord(IN){ Line2d l=L(in+1); GivenCoord g=in[0]?GivenCoord::Y:GivenCoord::X; out[0]=l.getCoord(g,in[4]); put(out+1,l.getPoint(g,in[4])); return 0; }
VC points_p(IN){ Line2d l=L(in); auto r=l.getPoints(P(in+3),in[5]); put(out,r.first); put(out+2,r.second); return 0; }
VC points_gc(IN){ Line2d l=L(in+1); GivenCoord g=in[0]?GivenCoord::Y:GivenCoord::X; auto r=l.getPoints(g,in[4],in[5]); put(out,r.first); put(out+2,r.second); put(out+4,l.getPoint(g,in[4])); return 0; }
// point order and equality
VC pt_eq(IN){ Point2d a=P(in),b=P(in+2); out[0]=(a==b); out[1]=(b==a); out[2]=(a!=b); out[3]=(a==a); return a==b; }
VC pt_lt(IN){ Point2d a=P(in),b=P(in+2); out[0]=(a<b); out[1]=(b<a); out[2]=(a<a); return a<b; }
VC pt_lt3(IN){ Point2d a=P(in),b=P(in+2),c=P(in+4); out[0]=(a<b); out[1]=(b<c); out[2]=(a<c); return 0; }
VC pt_lt_h(IN){ Point2d a=PH(in),b=PH(in+3); return a<b; }
VC line_eq(IN){ Line2d a=L(in),b=L(in+3); out[0]=(b==a); out[1]=(a!=b); return a==b; }
VC line_eq_scaled(IN){ Line2d a(in[0],in[1],in[2]),b(in[0]*in[3],in[1]*in[3],in[2]*in[3]); out[0]=(b==a); return a==b; }
VC pt_move(IN){ Point2d a=P(in); a.translate(in[2],in[3]); put(out,a); Point2d b=PH(in+4); b.translate(in[2],in[3]); put(out+2,b); a.moveTo(b); put(out+4,a); a.set(in[0],in[1]); put(out+6,a); return 0; }
VC par_dist1(IN){ Line2d l=L(in+1),m=L(in+4); out[0]=in[0]?getParallelDistance(m,l):getParallelDistance(l,m); return 0; }
