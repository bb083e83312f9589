From c1ea2ad0c0763037bab9fe148c8a7cd4a1aa6b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 01/22] fix: normalising a nearly horizontal line kept the sign
 of a but changed that of b and c, giving another line

---
 homog2d.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..2a00eb3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5427,7 +5427,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
@@ -8800,10 +8800,8 @@ LPBase<LP,FPT>::impl_normalize( const detail::BaseHelper<typename typ::IsLine>&
 
 	if( homog2d_abs(_v[0]) < thr::nullDenom() ) // then, change sign so that b>0
 		if( _v[1] < 0 )
-		{
-			const_cast<LPBase<LP,FPT>*>(this)->_v[1] = - _v[1];
-			const_cast<LPBase<LP,FPT>*>(this)->_v[2] = - _v[2];
-		}
+			for( int i=0; i<3; i++ )  // all the three, else this would be another line
+				const_cast<LPBase<LP,FPT>*>(this)->_v[i] = -_v[i];
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 90a28c31f76c02c22bd5b9df7aac98ceeb361ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 02/22] fix: distance of two lines parallel up to the threshold
 was NaN when a coefficient has opposite signs in them

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2a00eb3..8965136 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10983,9 +10983,9 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+// the two lines may be stored with opposite directions
+	const HOMOG2D_INUMTYPE k = a1*a2 + b1*b2;
+	return homog2d_abs( k < 0 ? c1 + c2 : c1 - c2 ) / homog2d_sqrt( homog2d_abs(k) );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From 9b12c57e3615f77227d0a9ba37af233b8200471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 03/22] fix: a homography modified by init, set, value or
 transpose kept using the cached inverse transpose and normalised flag of its
 former content

---
 homog2d.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8965136..078a5f8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1492,7 +1492,7 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>&       getRaw()       { _isNormalized = false; return _mdata; }
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1502,6 +1502,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1517,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;
 		return _mdata[r][c];
 	}
 
@@ -1854,6 +1856,7 @@ Thus some assert can get triggered elsewhere.
 	void init()
 	{
 		impl_mat_init0( detail::BaseHelper<M>() );
+		_hasChanged = true;
 	}
 
 /// \name Adding/assigning a transformation
@@ -9681,7 +9684,7 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 		h._hasChanged = true;
 	}
 
-	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
+	if( h._hasChanged || !h.isNormalized() )   // if homography has changed, recompute inverse and transposed
 	{
 		auto hi = h;
 		auto mat_inv = hi.inverse().transpose();
-- 
2.43.0


From 75003f0e70fbf564d078e72e0ac3d83f13188ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 04/22] fix: a segment built from an oriented segment did not
 order its points

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 078a5f8..bb5890e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4945,7 +4945,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From 6ac7aeb43801a8bdb991ce3924f426fcc61c7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 05/22] fix: FRect_::moveTo did not compile when used

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bb5890e..87ec731 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2867,18 +2867,20 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From cf87d80c4b1eb35ef9cf493cb521244828f60bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:41 +0000
Subject: [PATCH 06/22] fix: an ellipse with a vertical major axis got an angle
 of 90 radians, point containment and boxes were wrong

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 87ec731..fef1000 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8549,7 +8549,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = M_PI / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 50ea8367312b7708330f1d9a9a3344dc2a470085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:56 +0000
Subject: [PATCH 07/22] fix: comparing ellipses normalised them in place, which
 swapped their axes and threw for a conic through the origin

---
 homog2d.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index fef1000..52c1d2e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2356,20 +2356,21 @@ public:
 	friend std::ostream&
 	operator << ( std::ostream& f, const Ellipse_<T>& ell );
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
+/**
+The matrices are compared up to a scale factor: both are divided by their largest element, and have the same sign.
+The objects are left unchanged.
+*/
 	bool operator == ( const Ellipse_& h ) const
 	{
 		auto& data = detail::Matrix_<FPT>::_mdata;
 
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
+		const auto k1 = p_getScale();
+		const auto k2 = h.p_getScale();
 
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
+				if( std::fabs( data[i][j] / k1 - h.value(i,j) / k2 )
 					>= thr::nullDeter()
 				)
 					return false;
@@ -2394,6 +2395,17 @@ is indeed a valid ellipse
 	explicit Ellipse_( const detail::Matrix_<FPT>& mat ): detail::Matrix_<FPT>( mat )
 	{}
 
+/// Returns the largest absolute value of the matrix, with the sign of the trace of its upper-left 2x2 block (never null)
+	HOMOG2D_INUMTYPE p_getScale() const
+	{
+		const auto& data = detail::Matrix_<FPT>::_mdata;
+		HOMOG2D_INUMTYPE k = 0.;
+		for( const auto& li: data )
+			for( const auto& e: li )
+				k = std::max( k, static_cast<HOMOG2D_INUMTYPE>( homog2d_abs( e ) ) );
+		return data[0][0] + data[1][1] < 0. ? -k : k;
+	}
+
 	template<typename T>
 	detail::EllParams<T> p_getParams() const;
 	template<typename T>
-- 
2.43.0


From 0a48a8e12a20dde6e1f414343a75158cd29dd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 08/22] fix: translating or moving a polyline kept its stored
 attributes, centroid() then returned the former one

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 52c1d2e..2f3f96d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6433,7 +6433,7 @@ Also use the areCollinear() function
 	{
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
-		for( auto& pt: _plinevec )
+		for( auto& pt: getPts() )   // non-const access, so that stored attributes get recomputed
 			pt.translate( dx, dy );
 	}
 
@@ -6464,7 +6464,7 @@ Also use the areCollinear() function
 			HOMOG2D_THROW_ERROR_1( "Invalid call, Polyline is empty" );
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
-		for( auto& pt: _plinevec )
+		for( auto& pt: getPts() )   // non-const access, so that stored attributes get recomputed
 			pt.translate( dx, dy );
 	}
 
-- 
2.43.0


From 3ebcd7f59b73eae266d9dcd9199c3d6db56c1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 09/22] fix: PolylineBase::getExtremePoint() did not compile
 when used

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2f3f96d..7575f00 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7133,7 +7133,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 26b1f176ffdbe933e4823fef0e38deeb37548e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 10/22] fix: a point inside a polygon was reported outside if
 aligned with one of the segments

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7575f00..747fade 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9384,7 +9384,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( this->distTo( seg ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
-- 
2.43.0


From 670f2552a9ed0081c4b98dd94c880322a3f5ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 11/22] fix: bounding box of an empty polyline and another
 object threw, or not, depending on the order of the arguments

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 747fade..b80b3d8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10463,7 +10463,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10475,7 +10475,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10485,7 +10485,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From a5de76ed08d0042a26d440d48ff3ccc71dc1bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 12/22] fix: bounding box of variants holding a line counted a
 point pair of another element, or the origin

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b80b3d8..bebd901 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10305,13 +10305,13 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 		try
 		{
 			ppair = std::visit( fct::PtPairFunct{}, elem );
+			vpts.push_back( ppair.first );
+			vpts.push_back( ppair.second );
 		}
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
 		}
-		vpts.push_back( ppair.first );
-		vpts.push_back( ppair.second );
 	}
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
-- 
2.43.0


From ac5b9f1e047c0d8f6fcf09d79f0a80e8fcc37a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 13/22] fix: nearest and farthest point searches returned the
 query point if it was there twice at the start of the container

---
 homog2d.hpp | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bebd901..ca68498 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11112,23 +11112,14 @@ findPoint(
 			<< " points, minimum is 2" );
 
 	decltype( priv::sqDist( qpt, qpt ) ) resDist;
-	size_t startIdx = 1;
 	size_t resIdx = 0;
 
-// if point is the first one of the container, then
-// initialize with the second one
-	if( cont[0] == qpt )
-	{
-		startIdx++;
+// initialize with the first point that is different from the query point
+	while( resIdx+1 < cont.size() && cont[resIdx] == qpt )
 		resIdx++;
-		resDist = priv::sqDist( qpt, cont[1] );
-	}
-	else // initialize with first point
-	{
-		resDist = priv::sqDist( qpt, cont[0] );
-	}
+	resDist = priv::sqDist( qpt, cont[resIdx] );
 
-	for( size_t i=startIdx; i<cont.size(); i++ )
+	for( size_t i=resIdx+1; i<cont.size(); i++ )
 	{
 		if( qpt != cont[i] )
 		{
@@ -11189,20 +11180,14 @@ findNearestFarthestPoint( const Point2d_<FPT>& pt, const T& cont )
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	auto maxDist = priv::sqDist( pt, cont[0] );
-	auto minDist = maxDist;
+// initialize with the first point that is different from the query point
 	size_t idxMin = 0;
-	size_t idxMax = 0;
-	size_t startIdx = 1;
-	if( pt == cont[0] )
-	{
+	while( idxMin+1 < cont.size() && pt == cont[idxMin] )
 		idxMin++;
-		idxMax++;
-		startIdx++;
-		maxDist = priv::sqDist( pt, cont[1] );
-		minDist = maxDist;
-	}
-	for( size_t i=startIdx; i<cont.size(); i++ )
+	size_t idxMax = idxMin;
+	auto maxDist = priv::sqDist( pt, cont[idxMin] );
+	auto minDist = maxDist;
+	for( size_t i=idxMin+1; i<cont.size(); i++ )
 	{
 		if( pt != cont[i] )
 		{
-- 
2.43.0


From 3ad7248861dc23692366d999be5e19318cee65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 14/22] fix: convex hull was not convex if several points have
 the same direction from the pivot

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ca68498..4db6ae3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11482,7 +11482,10 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 			auto dy1 = pt1.getY() - pt0.getY();
 			auto dx2 = pt2.getX() - pt0.getX();
 			auto dy2 = pt2.getY() - pt0.getY();
-			return ((dx1 * dy2 - dx2 * dy1) > 0);
+			auto cross = dx1 * dy2 - dx2 * dy1;
+			if( cross == 0 )          // same direction: closest point first
+				return dx1*dx1 + dy1*dy1 < dx2*dx2 + dy2*dy2;
+			return cross > 0;
 		}
 	);
 	return out;
-- 
2.43.0


From ff5d60b01bc43ca6f36bbac345222d8832d90681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:32 +0000
Subject: [PATCH 15/22] fix: convex hull of a set holding several times the
 same point threw, or was not convex

---
 homog2d.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4db6ae3..43b1f9a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11488,6 +11488,20 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 			return cross > 0;
 		}
 	);
+
+// step 3: remove points that are present several times (they are consecutive)
+	out.erase(
+		std::unique(
+			out.begin(),
+			out.end(),
+			[&]                  // lambda
+			( size_t i1, size_t i2 )
+			{
+				return in[i1] == in[i2];
+			}
+		),
+		out.end()
+	);
 	return out;
 }
 
@@ -11565,6 +11579,13 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 
 // step 2: sort points by angle of lines between the current point and pivot point
 	auto v2 = priv::chull::sortPoints( input, pivot_idx );
+	if( v2.size() < 4 )  // all the other points are duplicates
+	{
+		std::vector<Point2d_<FPT>> vpts;
+		for( auto idx: v2 )
+			vpts.push_back( input[idx] );
+		return CPolyline_<FPT>( vpts );
+	}
 
 	std::stack<size_t> firstPoint;
 	priv::chull::Mystack hull;
-- 
2.43.0


From 939b0d99341bd969d816f38b97c9656116f41135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:46 +0000
Subject: [PATCH 16/22] fix: closed polylines with the same points in reverse
 order were different if flat at their smallest point

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 43b1f9a..a86de7d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7610,7 +7610,7 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 			HOMOG2D_INUMTYPE yC = ptC.getY();
 
 			auto det = (xB-xA)*(yC-yA) - (xC-xA)*(yB-yA);
-			if( det < 0)
+			if( det < 0 || ( det == 0 && ptC < ptA ) )
 			{
 				std::reverse( _plinevec.begin(), _plinevec.end() );
 				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-- 
2.43.0


From 835028dd4558eb31537cf35ec79d06cd8628e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:29 +0000
Subject: [PATCH 17/22] fix: union of two rectangles sharing a horizontal side
 or corner

---
 homog2d.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a86de7d..50f970b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7849,16 +7849,21 @@ struct Index
 {
 	T       _value;
 	uint8_t _rect_idx=0;   // 0 means none, will be 1 or 2
+	bool    _isMax=false;  // true if this is the highest of the two values of its rectangle
 
 	Index() = default;
-	Index( T v, uint8_t r )
-		: _value(v), _rect_idx(r)
+	Index( T v, uint8_t r, bool isMax )
+		: _value(v), _rect_idx(r), _isMax(isMax)
 	{}
 	friend bool operator < ( const Index& i1, const Index& i2 )
 	{
 
 		if( i1._value == i2._value )
+		{
+			if( i1._isMax != i2._isMax )  // rectangles sharing a side: one must
+				return i2._isMax;         // start before the other one ends
 			return i1._rect_idx < i2._rect_idx;
+		}
 		return i1._value < i2._value;
 	}
 	friend std::ostream& operator << ( std::ostream& f, const Index& idx )
@@ -8140,16 +8145,16 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
 	int i=0;
-	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1 );
-	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1 );
-	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2 );
-	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2 );
+	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1, false );
+	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1, true );
+	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2, false );
+	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2, true );
 
 	i=0;
-	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1 );
-	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1 );
-	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2 );
-	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2 );
+	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1, false );
+	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1, true );
+	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2, false );
+	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2, true );
 
 	std::sort( vx.begin(), vx.end() );
 	std::sort( vy.begin(), vy.end() );
-- 
2.43.0


From bdf45ed756291c8ecabbcf1faffd6916fa60420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:31 +0000
Subject: [PATCH 18/22] fix: circle set from three points, one of them a
 reference to its own center

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 50f970b..8740018 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5639,8 +5639,9 @@ Circle_<FPT>::set(
 	if( li1.isParallelTo(li2) )
 		HOMOG2D_THROW_ERROR_1( "unable, bisector lines are parallel" )
 #endif
-	center() = li1 * li2;
-	radius() = center().distTo(pt1);
+	Point2d_<HOMOG2D_INUMTYPE> ptc = li1 * li2;
+	radius() = ptc.distTo(pt1);  // before center is assigned, because pt1 may refer to it
+	center() = ptc;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 58aff3a40bdf47124fb8f479cde65cbaa1c35787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 19/22] fix: rotation of a polyline around a reference to one
 of its own points

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8740018..c2ac9b2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7286,9 +7286,11 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto dx = refpt.getX();  // copied, because refpt may be one of our points
+	const auto dy = refpt.getY();
+	translate( -dx, -dy );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( dx, dy );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 13db061102933a58a8172e39e99adf0898162e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:49 +0000
Subject: [PATCH 20/22] fix: convexity of a polygon with aligned points
 depended on its direction

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c2ac9b2..6e93b47 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7473,6 +7473,8 @@ PolylineBase<PLT,FPT>::isConvex() const
 		auto dy2 = pt2.getY() - pt1.getY();
 
 		auto crossproduct = dx1*dy2 - dy1*dx2;
+		if( crossproduct == 0 )                  // aligned points: no turn
+			continue;
 		if( sign == 0 )                          // initial sign value
 			sign = (crossproduct>0 ? +1 : -1);
 		else
-- 
2.43.0


From 3b102a8965db6585d15797d9d8bf7d0a9732b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:12 +0000
Subject: [PATCH 21/22] fix: convexHull read an empty stack with nearly aligned
 points

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6e93b47..f318c20 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11618,7 +11618,7 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 		auto r = input.at( v2[idx3] );
 		auto orient = priv::chull::orientation( p, q, r );
 //		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
+		if( orient != 1 || idx1 == 0 )   // first edge: no turn back to the pivot (only through rounding)
 		{
 			hull.push( v2[idx3] );
 			idx1 = idx2;
-- 
2.43.0


From aeab7df66e57f31c91be78a5154483a21bb0fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:12 +0000
Subject: [PATCH 22/22] fix: minimum enclosing circle of three points was the
 circle through them

---
 homog2d.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f318c20..e219d12 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5763,12 +5763,6 @@ Circle_<FPT>::set( const T& pts )
 		return;
 	}
 
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
-	{
-		set( pts[0], pts[1], pts[2] );
-		return;
-	}
-
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy( std::begin(pts), std::end(pts) );
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
-- 
2.43.0

