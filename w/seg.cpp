// segments: entry points under contract
#include "vc.hpp"
static inline Segment S(const double* p){ return Segment(P(p),P(p+2)); }
static inline OSegment O(const double* p){ return OSegment(P(p),P(p+2)); }
// in: way, points (4), other points (4), offsets (2): a segment built, set, converted or moved
VC seg_make(IN){
	int m=(int)in[0]; const double* p=in+1; const double* q=in+5; Segment s(0,0,3,4);
	switch(m){
		case 0: s=Segment(P(p),P(p+2)); break;
		case 1: s=Segment(p[0],p[1],p[2],p[3]); break;
		case 2: s=Segment(std::make_pair(P(p),P(p+2))); break;
		case 3: s=Segment(OSegment(P(p),P(p+2))); break;
		case 4: s.set(P(p),P(p+2)); break;
		case 5: s.set(p[0],p[1],p[2],p[3]); break;
		case 6: s.set(std::make_pair(P(p),P(p+2))); break;
		case 7: { OSegment t(P(p),P(p+2)); s=t; } break;
		case 8: { Segment t(P(p),P(p+2)); Segment u(t); s=u; } break;
	}
	put(out,s); return 0; }
VC seg_set_fail(IN){ Segment s(P(in),P(in+2)); try{ s.set(P(in+4),P(in+6)); } catch(const std::exception&){} put(out,s); return 0; }
VC seg_move(IN){ int m=(int)in[0]; Segment s=S(in+1);
	switch(m){ case 0: s.translate(in[5],in[6]); break; case 1: s.translate(std::make_pair(in[5],in[6])); break; case 2: s.moveTo(P(in+5)); break; case 3: s.moveTo(in[5],in[6]); break; }
	put(out,s); return 0; }
VC oseg_move(IN){ int m=(int)in[0]; OSegment s=O(in+1);
	switch(m){ case 0: s.translate(in[5],in[6]); break; case 1: s.translate(std::make_pair(in[5],in[6])); break; case 2: s.moveTo(P(in+5)); break; case 3: s.moveTo(in[5],in[6]); break; }
	put(out,s); return 0; }
VC oseg_make(IN){ int m=(int)in[0]; const double* p=in+1; OSegment s(0,0,3,4);
	switch(m){ case 0: s=OSegment(P(p),P(p+2)); break; case 1: s.set(P(p),P(p+2)); break; case 2: { OSegment t(P(p),P(p+2)); OSegment u(t); s=u; } break; case 3: s=OSegment(p[0],p[1],p[2],p[3]); break; case 4: s=OSegment(std::make_pair(P(p),P(p+2))); break; }
	put(out,s); return 0; }
VC oseg_rev(IN){ OSegment s=O(in); OSegment r=-s; put(out,r); return 0; }
VC seg_eq(IN){ Segment a=S(in),b=S(in+4); out[0]=(b==a); out[1]=(a!=b); return a==b; }
VC oseg_eq(IN){ OSegment a=O(in),b=O(in+4); out[0]=(b==a); out[1]=(a!=b); return a==b; }
// measures
VC seg_len(IN){ Segment s=S(in); out[0]=s.length(); out[1]=O(in).length(); out[2]=length(s); return 0; }
VC seg_center(IN){ Segment s=S(in); put(out,s.getCenter()); put(out+2,O(in).getCenter()); put(out+4,getCenter(s)); return 0; }
VC seg_split(IN){ Segment s=S(in); auto r=s.split(); put(out,r.first); put(out+4,r.second); return 0; }
VC oseg_split(IN){ OSegment s=O(in); auto r=s.split(); put(out,r.first); put(out+4,r.second); return 0; }
VC oseg_splitd(IN){ OSegment s=O(in); auto r=s.split(in[4]); put(out,r.first); put(out+4,r.second); return 0; }
VC seg_ext(IN){ Segment s=S(in); put(out,s.getExtended()); return 0; }
VC seg_bis(IN){ Segment s=S(in); put(out,s.getBisector()); put(out+3,O(in).getBisector()); return 0; }
VC seg_par(IN){ Segment s=S(in); auto r=s.getParallelSegs(in[4]); put(out,r.first); put(out+4,r.second); return 0; }
VC oseg_par(IN){ OSegment s=O(in); auto r=s.getParallelSegs(in[4]); put(out,r.first); put(out+4,r.second); return 0; }
VC oseg_at(IN){ OSegment s=O(in); put(out,s.getPointAt(in[4])); return 0; }
VC oseg_vec(IN){ OSegment s=O(in); auto v=s.getVector(); out[0]=v.first; out[1]=v.second; return 0; }
VC seg_line(IN){ put(out,S(in).getLine()); put(out+3,O(in).getLine()); return 0; }
VC seg_orth(IN){ auto a=S(in).getOrthogPts(); for(int i=0;i<4;i++) put(out+2*i,a[i]); return 0; }
VC oseg_angle(IN){ OSegment a=O(in),b=O(in+4); out[0]=a.getAngle(b); return 0; }
// distance and side
VC seg_dist(IN){ Segment s=S(in); int k=7; out[0]=s.distTo(P(in+4),&k); out[1]=k; out[2]=P(in+4).distTo(s); put(out+3,s); return 0; }
VC oseg_dist(IN){ OSegment s=O(in); int k=7; out[0]=s.distTo(P(in+4),&k); out[1]=k; out[2]=s.distTo(P(in+4)); return 0; }
VC oseg_side(IN){ OSegment s=O(in); switch(s.getPointSide(P(in+4))){ case PointSide::Left: return 1; case PointSide::Right: return 2; case PointSide::Neither: return 0; } return 9; }
// intersections
VC seg_seg(IN){ Segment a=S(in),b=S(in+4); auto r=a.intersects(b); auto q=b.intersects(a); out[0]=r(); out[1]=q(); if( r() ) put(out+2,r.get()); if( q() ) put(out+4,q.get()); return r(); }
VC oseg_oseg(IN){ OSegment a=O(in),b=O(in+4); auto r=a.intersects(b); auto q=b.intersects(a); out[0]=r(); out[1]=q(); if( r() ) put(out+2,r.get()); if( q() ) put(out+4,q.get()); return r(); }
VC seg_line_i(IN){ Segment a=S(in); Line2d b=L(in+4); auto r=a.intersects(b); auto q=b.intersects(a); out[0]=r(); out[1]=q(); if( r() ) put(out+2,r.get()); if( q() ) put(out+4,q.get()); return r(); }
