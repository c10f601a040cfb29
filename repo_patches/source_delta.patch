From d6ea854a717a0b3cc34a27c83a1ad0fd170e865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 01/91] fix: a point aligned with an edge of a polygon, but not
 on that edge, can be inside the polygon

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..4bc4e27 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9369,7 +9369,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( seg.distTo( *this ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
-- 
2.43.0


From 98144cdfaa8add51ace96674011c8cd1cf0bdc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 02/91] fix: point in polygon search dropped all the candidate
 reference points after a first unsuitable one

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4bc4e27..f22cb04 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9381,6 +9381,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 		bool tooClose = false;
 		for( size_t i=0; i<seg_bb.size(); i++ )        // iterate on all segments of the extended bounding box
 		{
+			tooClose = false;
 			Segment_<HOMOG2D_INUMTYPE> seg_ref( *this, seg_bb[i].getCenter() );
 
 			auto poly_pts = poly.getPts();
-- 
2.43.0


From 1af2701d843564e1a66dc6a15aa7706005866a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 03/91] fix: a polyline with overlapping (parallel) segments is
 not a simple polygon

---
 homog2d.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f22cb04..d5cbea7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7399,8 +7399,20 @@ PolylineBase<PLT,FPT>::isSimple() const
 			do
 			{
 				auto seg1 = getSegment(i);
+
+// a vertex lying on another segment, needed because parallel segments (that may overlap) are considered as not intersecting
+				auto idx_next = (i+1 == nbs ? 0 : i+1);
+				for( size_t j=0; j<nbs; j++ )
+					if( j != i && j != idx_next )
+						if( seg1.distTo( getPoint(j) ) < thr::nullDistance() )
+						{
+							notDone = false;
+							hasIntersections = true;
+							break;
+						}
+
 				auto lastone = i==0?nbs-1:nbs;
-				for( auto j=i+2; j<lastone; j++ )
+				for( auto j=i+2; notDone && j<lastone; j++ )
 					if( getSegment(j).intersects(seg1)() )
 					{
 						notDone = false;
-- 
2.43.0


From 23f207d14cb0a6480bca708a0466fccc7e02e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 04/91] fix: convexity of a polygon no longer depends on the
 order of its points if some of them are collinear

---
 homog2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index d5cbea7..910d341 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7458,6 +7458,9 @@ PolylineBase<PLT,FPT>::isConvex() const
 		const auto& pt0 = vpts[ i==0?vpts.size()-1:i-1 ];
 		const auto& pt1 = vpts[ i ];
 		const auto& pt2 = vpts[ i==vpts.size()-1?0:i+1 ];
+		if( areCollinear( pt0, pt1, pt2 ) )      // no turn here, so this point says nothing
+			continue;
+
 		auto dx1 = pt1.getX() - pt0.getX();
 		auto dy1 = pt1.getY() - pt0.getY();
 
-- 
2.43.0


From 27622c527a56dbdb2c6933d90b056d8953b899b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 05/91] fix: Polyline member function getExtremePoint() did not
 build

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 910d341..76ddf4e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7116,7 +7116,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 39d1e6277321b16526d5b924c1eda8006d364584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 06/91] fix: stale centroid after translating or moving a
 polyline

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 76ddf4e..337d234 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6416,6 +6416,7 @@ Also use the areCollinear() function
 	{
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
+		_attribs._centroid.setBad();   // the only attribute that depends on location
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
@@ -6447,6 +6448,7 @@ Also use the areCollinear() function
 			HOMOG2D_THROW_ERROR_1( "Invalid call, Polyline is empty" );
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
+		_attribs._centroid.setBad();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
-- 
2.43.0


From 295e6b5217c7540b241abf11fc875e5cf069a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 07/91] fix: homography kept using an outdated inverse (or
 normalization flag) after some of its members changed it

---
 homog2d.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 337d234..84c93ee 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1474,6 +1474,7 @@ class Matrix_: public Common<FPT>
 protected:
 	mutable matrix_t<FPT> _mdata;
 	mutable bool          _isNormalized = false;
+	mutable bool          _hasChanged   = true;  ///< true if values may have been changed since this was last reset
 
 public:
 /// Constructor
@@ -1492,7 +1493,11 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>& getRaw()
+	{
+		p_setChanged();
+		return _mdata;
+	}
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1502,6 +1507,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		p_setChanged();
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1522,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		p_setChanged();
 		return _mdata[r][c];
 	}
 
@@ -1539,7 +1546,7 @@ See https://en.wikipedia.org/wiki/Determinant
 			for( int j=0; j<3; j++ )
 				out[i][j] = _mdata[j][i];
 		_mdata = out;
-		_isNormalized = false;
+		p_setChanged();
 		return *this;
 	}
 
@@ -1553,12 +1560,19 @@ See https://en.wikipedia.org/wiki/Determinant
 		auto adjugate = p_adjugate();
 		p_divideAll(adjugate, det);
 		_mdata = adjugate._mdata;
-		_isNormalized = false;
+		p_setChanged();
 		return *this;
 	}
 	bool isNormalized() const { return _isNormalized; }
 
 protected:
+/// To be called each time the values are (or can be) changed
+	void p_setChanged()
+	{
+		_isNormalized = false;
+		_hasChanged   = true;
+	}
+
 	void p_normalizeMat( int r, int c ) const
 	{
 #ifndef HOMOG2D_NOCHECKS
@@ -1588,6 +1602,7 @@ protected:
 
 	void p_fillZero()
 	{
+		p_setChanged();
 		for( auto& li: _mdata )
 			for( auto& e: li )
 				e = 0.;
@@ -1606,7 +1621,7 @@ protected:
 		for( auto i=0; i<3; i++ )
 			for( auto j=0; j<3; j++ )
 				_mdata[i][j] = in[i][j];
-		_isNormalized = false;
+		p_setChanged();
 	}
 
 /// Divide all elements of \c mat by \c value
@@ -1787,10 +1802,9 @@ Thus some assert can get triggered elsewhere.
 /// Copy-constructor
 	Hmatrix_( const Hmatrix_<M,FPT>& other )
 		: detail::Matrix_<FPT>( other)
-		, _hasChanged   ( true )
 		, _hmt          (  nullptr )
 	{
-		detail::Matrix_<FPT>::getRaw() = other.getRaw();
+		_hasChanged = true;
 	}
 
 #ifdef HOMOG2D_USE_OPENCV
@@ -1807,7 +1821,10 @@ Thus some assert can get triggered elsewhere.
 	Hmatrix_& operator = ( const Hmatrix_<M,FPT>& other )
 	{
 		if( this != &other )
+		{
 			detail::Matrix_<FPT>::getRaw() = other.getRaw();
+			detail::Matrix_<FPT>::_isNormalized = other.isNormalized();
+		}
 		_hasChanged = true;
 		return *this;
 	}
@@ -2034,7 +2051,7 @@ private:
 //      DATA SECTION    //
 //////////////////////////
 private:
-	mutable bool _hasChanged   = true;
+	using detail::Matrix_<FPT>::_hasChanged;  // used to know if _hmt needs to be rebuilt
 	mutable std::unique_ptr<detail::Matrix_<FPT>> _hmt; ///< used to store \f$ H^{-1} \f$, but only if required
 
 	friend std::ostream& operator << ( std::ostream& f, const Hmatrix_& h )
@@ -11701,7 +11718,7 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 #endif
 	size_t i=0;
 
-	auto& data = detail::Matrix_<FPT>::_mdata;
+	auto& data = detail::Matrix_<FPT>::getRaw();
 	switch( type )
 	{
 		case CV_64F:
-- 
2.43.0


From 31e461e779b9724781982cd7cb56653cb8cd6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 08/91] fix: lines could not be transformed by an homography
 whose inverse has a null last element

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 84c93ee..904f559 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9720,8 +9720,8 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 
 	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
 	{
-		auto hi = h;
-		auto mat_inv = hi.inverse().transpose();
+		detail::Matrix_<U> mat_inv = h;  // no need for it to be normalized as an homography
+		mat_inv.inverse().transpose();
 		*h._hmt = mat_inv;
 		h._hasChanged = false;
 	}
-- 
2.43.0


From 038828245473c4222665eead23769acce57d4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 09/91] fix: a failing homography inverse() changed the object

---
 homog2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 904f559..572872e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1832,9 +1832,10 @@ Thus some assert can get triggered elsewhere.
 /// Inverse matrix
 	Hmatrix_& inverse()
 	{
-		detail::Matrix_<FPT>::inverse();
-		normalize();
-		return *this;
+		auto inv = *this;            // so that nothing is changed if this is not possible
+		inv.detail::template Matrix_<FPT>::inverse();
+		inv.normalize();
+		return ( *this = inv );
 	}
 
 #if 0
-- 
2.43.0


From 48bf694fe04f2b636df46ba147c6728621031fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 10/91] fix: the product of an homography and an oriented
 segment lost its orientation

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 572872e..3f3fc6c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9733,15 +9733,15 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 	return out;
 }
 
-/// Apply homography to a Segment
+/// Apply homography to a Segment or an OSegment
 template<typename SV,typename FPT1,typename FPT2>
-Segment_<FPT1>
+base::SegVec<SV,FPT1>
 operator * ( const Homogr_<FPT1>& h, const base::SegVec<SV,FPT2>& seg )
 {
 	const auto& pts = seg.getPts();
 	Point2d_<FPT1> pt1 = h * pts.first;
 	Point2d_<FPT1> pt2 = h * pts.second;
-	return base::SegVec<SV,FPT2>( pt1, pt2 );
+	return base::SegVec<SV,FPT1>( pt1, pt2 );
 }
 
 /// Apply homography to a Polyline
-- 
2.43.0


From bb0bedeb7797a62e25bedc0396ccefaeff6619dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 11/91] fix: points of a Segment built from an OSegment were
 not ordered

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3f3fc6c..d95587d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4960,7 +4960,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From 4a74a50bafa08b118c5322c524cb9c4194165401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 12/91] fix: homography from 4 points returned garbage for
 collinear points, or if its last element is null

---
 homog2d.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d95587d..7f4912b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4824,10 +4824,28 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for dest points, should be 4, value=" << vpt2.size() );
 	assert( method == 0 || method == 1 );
 
+	for( const auto* v: { &vpt1, &vpt2 } )
+		for( size_t i=0; i<4; i++ )
+			if( areCollinear( v->at(i), v->at((i+1)%4), v->at((i+2)%4) ) )
+				HOMOG2D_THROW_ERROR_1( "unable to build homography, 3 points are collinear" );
+
+// the solvers need a non-null last element, so we move the source points so that the first one is at
+// the origin, as it has a finite image. The product below adds that translation and normalizes (or throws).
+	const auto tx = static_cast<HOMOG2D_INUMTYPE>( vpt1[0].getX() );
+	const auto ty = static_cast<HOMOG2D_INUMTYPE>( vpt1[0].getY() );
+	std::vector<Point2d_<HOMOG2D_INUMTYPE>> src, dst;
+	for( size_t i=0; i<4; i++ )
+	{
+		src.emplace_back( vpt1[i].getX() - tx, vpt1[i].getY() - ty );
+		dst.emplace_back( vpt2[i].getX(), vpt2[i].getY() );
+	}
+	const Hmatrix_<M,HOMOG2D_INUMTYPE> Ht( -tx, -ty );
+	Hmatrix_<M,HOMOG2D_INUMTYPE> H;
+
 	if( method == 0 )
 	{
 #ifdef HOMOG2D_USE_EIGEN
-		*this = detail::buildFrom4Points_Eigen( vpt1, vpt2 );
+		H = detail::buildFrom4Points_Eigen( src, dst ) * Ht;
 #else
 		throw std::runtime_error( "Unable, build without Eigen support" );
 #endif
@@ -4835,11 +4853,14 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 	else
 	{
 #ifdef HOMOG2D_USE_OPENCV
-		*this = detail::buildFrom4Points_Opencv( vpt1, vpt2 );
+		H = detail::buildFrom4Points_Opencv( src, dst ) * Ht;
 #else
 		throw std::runtime_error( "Unable, build without Opencv support" );
 #endif
 	}
+	for( int i=0; i<3; i++ )
+		for( int j=0; j<3; j++ )
+			this->set( i, j, H.value(i,j) );
 }
 
 /// Point related to a OSegment
-- 
2.43.0


From 108eadcc3c91b270b5923af0f85551fb22e57235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 13/91] fix: isParallelTo() with an oriented segment and
 getOrthogSegment() on a float line did not build

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7f4912b..78f3fda 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4255,8 +4255,8 @@ public:
 	template<typename FPT2>
 	bool isParallelTo( const Line2d_<FPT2>& ) const;
 
-	template<typename T>
-	bool isParallelTo( const Segment_<T>& seg ) const
+	template<typename SV,typename T>
+	bool isParallelTo( const SegVec<SV,T>& seg ) const
 	{
 		return isParallelTo( seg.getLine() );
 	}
@@ -9011,7 +9011,7 @@ LPBase<LP,FPT>::getOrthogSegment( const Point2d_<FPT2>& pt ) const
 	auto pair_lines = getParallelLines( dist );
 
 // determine on which of the two parallel lines does the point lie?
-	Line2d_<HOMOG2D_INUMTYPE>* pline = &pair_lines.first;
+	const auto* pline = &pair_lines.first;
 	if( pt.distTo(pair_lines.second) < thr::nullDistance() )
 		pline = &pair_lines.second;
 
-- 
2.43.0


From eefc8373dc3de447bb508c0bcdde3860d6f226e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 14/91] fix: distance between vertical or horizontal parallel
 lines could be NaN

---
 homog2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 78f3fda..6b5a72d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11042,9 +11042,12 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+// a1*a2 or b1*b2 may be slightly negative if null, so only take the square root of the sum
+// (that will be negative if the two normalized lines have opposite signs).
+	HOMOG2D_INUMTYPE ab = a1*a2 + b1*b2;
+	if( ab < 0 )
+		return homog2d_abs( c1 + c2 ) / homog2d_sqrt( -ab );
+	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( ab );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From 3a0d4590fb898c5dd1a94f7ad0bbe0ab64d12e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 15/91] fix: unary minus on an oriented segment reversed its
 operand

---
 homog2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6b5a72d..0997cdc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4990,12 +4990,13 @@ Please note that the source (points) floating-point type is lost
 /// \name Modifying functions
 ///@{
 
-/// Reverse oriented segment
-	SegVec<SV,FPT> operator - ()
+/// Returns the reversed oriented segment
+	SegVec<SV,FPT> operator - () const
 	{
 		static_assert( !std::is_same_v<SV,typ::IsSegment>, "cannot reverse non-oriented segment" );
-		std::swap( _ptS1, _ptS2 );
-		return *this;
+		auto out = *this;
+		std::swap( out._ptS1, out._ptS2 );
+		return out;
 	}
 
 /// Setter
-- 
2.43.0


From e816833743fdfe790a4c7a381d61318e26c04101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 16/91] fix: extending an oriented segment did not build

---
 homog2d.hpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0997cdc..aef1020 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5519,22 +5519,11 @@ template<typename SV, typename FPT>
 SegVec<SV,FPT>
 SegVec<SV,FPT>::getExtended() const
 {
-	Segment_<HOMOG2D_INUMTYPE> seg(*this); // to get highest precision
-	auto li = seg.getLine();
-	auto rad1 = seg.length();
-	auto c1 = Circle_<HOMOG2D_INUMTYPE>( _ptS1, rad1 );
-	auto c2 = Circle_<HOMOG2D_INUMTYPE>( _ptS2, rad1 );
-
-	auto int1 = li.intersects( c1 );
-	auto int2 = li.intersects( c2 );
-	assert( int1() );
-	assert( int2() );
-	auto ppt1 = int1.get();
-	auto ppt2 = int2.get();
-
-	return Segment_<FPT>(
-		ppt1.first,
-		ppt2.second
+	const auto dx = _ptS2.getX() - _ptS1.getX();
+	const auto dy = _ptS2.getY() - _ptS1.getY();
+	return SegVec<SV,FPT>(
+		Point2d_<FPT>( _ptS1.getX() - dx, _ptS1.getY() - dy ),
+		Point2d_<FPT>( _ptS2.getX() + dx, _ptS2.getY() + dy )
 	);
 }
 
-- 
2.43.0


From 83f599a4bb7c21b08dfeedd1d8a656def8b1edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 17/91] fix: getPointAt() and split() of an oriented segment
 threw far from the origin (point not on line)

---
 homog2d.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index aef1020..221cd49 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5461,12 +5461,12 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		HOMOG2D_THROW_ERROR_1( "distance value must be >0, current value=" << dist );
 #endif
 
-	Line2d_<HOMOG2D_INUMTYPE> li = getLine();
-	auto ppts = li.getPoints( _ptS1, dist );
-	if( _ptS2.distTo( ppts.first ) < _ptS2.distTo( ppts.second ) )
-		return ppts.first;
-	else
-		return ppts.second;
+	const auto vec = getVector();
+	const auto k = static_cast<HOMOG2D_INUMTYPE>(dist) / length();
+	return Point2d_<HOMOG2D_INUMTYPE>(
+		_ptS1.getX() + k * vec.first,
+		_ptS1.getY() + k * vec.second
+	);
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 9a209d13a1d66609c91f52d69983667c2723a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 18/91] fix: intersection of an oriented with a non-oriented
 segment, or of different number types, did not build

---
 homog2d.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 221cd49..2f8037b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2509,6 +2509,7 @@ template<typename FPT>
 class Intersect<Inters_1,FPT>: public IntersectCommon
 {
 	template<typename T,typename U> friend class h2d::base::SegVec;
+	template<typename T,typename U> friend class Intersect;
 
 	public:
 		Point2d_<FPT>
@@ -8255,12 +8256,9 @@ detail::Intersect<detail::Inters_1,FPT>
 SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 {
 //	HOMOG2D_START;
-	if( *this == s2 )              // same segment => no intersection
-		return detail::Intersect<detail::Inters_1,FPT>();
-
 	Line2d_<HOMOG2D_INUMTYPE> l1 = getLine();
 	Line2d_<HOMOG2D_INUMTYPE> l2 = s2.getLine();
-	if( l1.isParallelTo( l2 ) )                            // if parallel,
+	if( l1.isParallelTo( l2 ) )                            // if parallel (or same segment),
 		return detail::Intersect<detail::Inters_1,FPT>();  // then, no intersection
 
 	const auto& ptA1 = getPts().first;
-- 
2.43.0


From 344b4e5eb855c43606fc82d5eccc0204ec8e292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 19/91] fix: segments meeting far from the origin were reported
 as not intersecting

---
 homog2d.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2f8037b..0aec5dc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8256,16 +8256,25 @@ detail::Intersect<detail::Inters_1,FPT>
 SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 {
 //	HOMOG2D_START;
-	Line2d_<HOMOG2D_INUMTYPE> l1 = getLine();
-	Line2d_<HOMOG2D_INUMTYPE> l2 = s2.getLine();
+// computation is done relatively to the first point, so that accuracy does not depend on the distance to the origin
+	const auto org = Point2d_<HOMOG2D_INUMTYPE>( getPts().first );
+	auto shift = [&org]( const auto& pt )
+	{
+		return Point2d_<HOMOG2D_INUMTYPE>(
+			static_cast<HOMOG2D_INUMTYPE>(pt.getX()) - org.getX(),
+			static_cast<HOMOG2D_INUMTYPE>(pt.getY()) - org.getY()
+		);
+	};
+	const auto ptA1 = shift( getPts().first );
+	const auto ptA2 = shift( getPts().second );
+	const auto ptB1 = shift( s2.getPts().first );
+	const auto ptB2 = shift( s2.getPts().second );
+
+	Line2d_<HOMOG2D_INUMTYPE> l1( ptA1, ptA2 );
+	Line2d_<HOMOG2D_INUMTYPE> l2( ptB1, ptB2 );
 	if( l1.isParallelTo( l2 ) )                            // if parallel (or same segment),
 		return detail::Intersect<detail::Inters_1,FPT>();  // then, no intersection
 
-	const auto& ptA1 = getPts().first;
-	const auto& ptA2 = getPts().second;
-	const auto& ptB1 = s2.getPts().first;
-	const auto& ptB2 = s2.getPts().second;
-
 	auto ptInter = l1 * l2;   // intersection point
 
 	auto dA1 = ptA1.distTo( ptInter );
@@ -8275,7 +8284,9 @@ SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 		auto dB1 = ptB1.distTo( ptInter );
 		auto dB2 = ptB2.distTo( ptInter );
 		if( homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance() )
-			return detail::Intersect<detail::Inters_1,FPT>( ptInter );
+			return detail::Intersect<detail::Inters_1,FPT>(
+				Point2d_<FPT>( ptInter.getX() + org.getX(), ptInter.getY() + org.getY() )
+			);
 	}
 	return detail::Intersect<detail::Inters_1,FPT>(); // no intersection
 }
-- 
2.43.0


From e0757807b0fe92a2796cca1bfab438f3f4e928b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 20/91] fix: segment with a point on the edge of a circle
 missed intersections, tangent one gave a point twice

---
 homog2d.hpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0aec5dc..df53e3c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8217,13 +8217,13 @@ template<typename FPT,typename FPT2>
 PtTag
 getPtLabel( const Point2d_<FPT>& pt, const Circle_<FPT2>& circle )
 {
-	if( pt.isInside( circle ) )
-		return PtTag::Inside;
 	if(
 		homog2d_abs( pt.distTo( circle.center() ) - circle.radius() )
 			< thr::nullDistance()
 	)
 		return PtTag::OnEdge;
+	if( pt.isInside( circle ) )
+		return PtTag::Inside;
 	return PtTag::Outside;
 }
 #if 0
@@ -8337,11 +8337,11 @@ That makes 6 different situations to handle:
  - S1: PI-PI => no intersection
  - S2: PI-PO => 1 intersection
  - S3: PI-PE => 1 intersection
- - S4: PO-PO => depends on the support line:
+ - S4: PO-PO => depends on the support line (only 1 intersection if tangent):
   - S4A: if line does NOT intersects circle, no intersection pts
   - S4B: if line does intersects circle, and intersections point in segment area => 2 intersection pts
   - S4C: if line does intersects circle, and intersections point NOT in segment area => no intersection pts
- - S5: PO-PE => 1 intersection
+ - S5: PO-PE => 1 or 2 intersections, depending on the segment crossing the circle or not
  - S6: PE-PE => 2 intersections
 */
 template<typename SV,typename FPT>
@@ -8359,6 +8359,28 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 		if( tag_ptS2 == PtTag::Inside )
 			return detail::IntersectM<FPT>();
 
+	if( tag_ptS1 == PtTag::OnEdge || tag_ptS2 == PtTag::OnEdge )   // at least one point on the edge
+	{
+		detail::IntersectM<FPT> out;
+		if( tag_ptS1 == PtTag::OnEdge )
+			out.add( _ptS1 );
+		if( tag_ptS2 == PtTag::OnEdge )
+			out.add( _ptS2 );
+
+		if( tag_ptS1 == PtTag::Outside || tag_ptS2 == PtTag::Outside ) // the segment may cross the circle before reaching the point outside
+		{
+			const auto& ptE = ( tag_ptS1 == PtTag::OnEdge ? _ptS1 : _ptS2 );
+			const auto& ptO = ( tag_ptS1 == PtTag::OnEdge ? _ptS2 : _ptS1 );
+			const HOMOG2D_INUMTYPE dx = ( ptO.getX() - ptE.getX() ) / length();
+			const HOMOG2D_INUMTYPE dy = ( ptO.getY() - ptE.getY() ) / length();
+			const HOMOG2D_INUMTYPE h =                                   // half-length of the chord
+				( circle.center().getX() - ptE.getX() ) * dx + ( circle.center().getY() - ptE.getY() ) * dy;
+			if( h > thr::nullDistance() )
+				out.add( Point2d_<FPT>( ptE.getX() + 2*h*dx, ptE.getY() + 2*h*dy ) );
+		}
+		return out;
+	}
+
 	auto int_lc = getLine().intersects( circle );
 	if( !int_lc() )
 		return detail::IntersectM<FPT>();
@@ -8393,15 +8415,9 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 			return detail::IntersectM<FPT>();
 
 		out.add( p1 );
-		out.add( p2 );
-		return out;
+		if( p1 != p2 )
+			out.add( p2 );
 	}
-
-	if( tag_ptS1 == PtTag::OnEdge )
-		out.add( _ptS1 );
-	if( tag_ptS2 == PtTag::OnEdge )
-		out.add( _ptS2 );
-
 	return out;
 }
 
-- 
2.43.0


From b8de7be9b91e2aa9eb33fd10b2213b55b5dd29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 21/91] fix: intersection of tangent circles could be NaN

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index df53e3c..d792c8d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5856,7 +5856,8 @@ Circle_<FPT>::intersects( const Circle_<FPT2>& other ) const
 
 	auto d = homog2d_sqrt( d_squared );
 	auto a = (r1*r1 - r2*r2 + d_squared) / (HOMOG2D_INUMTYPE)2. / d;
-	auto h = homog2d_sqrt( r1*r1 - a*a );
+	auto h2 = r1*r1 - a*a;
+	auto h = ( h2 > 0 ? homog2d_sqrt( h2 ) : (HOMOG2D_INUMTYPE)0. );   // can be negative because of rounding, if circles are tangent
 
 	Point2d_<FPT> P0(
 		( x2 - x1 ) * a / d + x1,
-- 
2.43.0


From c77108f7d7033bc4ca27c788a5c9016a7da7b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 22/91] fix: angle of an ellipse with a vertical main axis was
 90 radians

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d792c8d..1eca9d0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8616,7 +8616,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = M_PI / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 524c45f82f8aa46c03fb63bd408d1cffd14f15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 23/91] fix: comparing ellipses modified them, and threw if one
 of them holds the origin

---
 homog2d.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1eca9d0..c0203b8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2371,27 +2371,29 @@ public:
 	friend std::ostream&
 	operator << ( std::ostream& f, const Ellipse_<T>& ell );
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
+/**
+The matrices are compared up to a scale factor, using A+C as reference: it is never null, while F is null
+if the ellipse holds the origin. The objects are left unmodified.
+*/
 	bool operator == ( const Ellipse_& h ) const
 	{
 		auto& data = detail::Matrix_<FPT>::_mdata;
 
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
-
+		const auto k1 = static_cast<HOMOG2D_INUMTYPE>( data[0][0] ) + data[1][1];
+		const auto k2 = static_cast<HOMOG2D_INUMTYPE>( h.value(0,0) ) + h.value(1,1);
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
+			{
+				const HOMOG2D_INUMTYPE v1 = data[i][j] / k1;
+				const HOMOG2D_INUMTYPE v2 = h.value(i,j) / k2;
+				if( homog2d_abs( v1 - v2 ) >= thr::nullDistance() * ( (HOMOG2D_INUMTYPE)1. + homog2d_abs( v1 ) ) )
 					return false;
+			}
 		return true;
 	}
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
 	bool operator != ( const Ellipse_& e ) const
 	{
 		return !(*this == e);
-- 
2.43.0


From 48bf2b6e3ed35b889652e31381191ef8321cd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 24/91] fix: polylines could compare different from a copy
 listed in reverse order

If the neighbours of the smallest point are aligned with it, the
normalization can't tell the direction from the orientation, so a
reversed listing compared different. The same happened if rounding
changed which point is the smallest.
---
 homog2d.hpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index c0203b8..03d7633 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6579,11 +6579,23 @@ public:
 			p_normalizePoly();
 			other.p_normalizePoly();
 
-			auto it = other._plinevec.begin();
-			for( const auto& elem: _plinevec )
-				if( *it++ != elem )
+			if( p_hasSamePoints( other, 0, false ) )
+				return true;
+
+// the normalized order is not unique if the neighbours of the first point are aligned with it,
+// and it may also differ if the "smallest" point is so only because of numerical rounding.
+			if constexpr( std::is_same_v<PLT,typ::IsClosed> )
+			{
+				const auto& other_pts = other._plinevec;
+				auto nb = std::count( other_pts.begin(), other_pts.end(), _plinevec[0] );
+				if( nb != 1 )           // no unique correspondence between the points
 					return false;
-			return true;
+				auto it = std::find( other_pts.begin(), other_pts.end(), _plinevec[0] );
+				size_t start = std::distance( other_pts.begin(), it );
+				return p_hasSamePoints( other, start, false ) || p_hasSamePoints( other, start, true );
+			}
+			else
+				return p_hasSamePoints( other, size()-1, true );
 		}
 		else
 			return false;
@@ -6679,6 +6691,20 @@ Sfinae should resolve ONLY for CPolyline
 private:
 	void p_normalizePoly() const;
 
+/// Returns true if the points of \c other, starting from index \c start (and going
+/// backwards if \c reverse), are the same as ours. Both must have the same size
+	template<typename FPT2>
+	bool p_hasSamePoints( const PolylineBase<PLT,FPT2>& other, size_t start, bool reverse ) const
+	{
+		for( size_t i=0; i<size(); i++ )
+		{
+			auto idx = (start + (reverse ? size()-i : i)) % size();
+			if( _plinevec[i] != other._plinevec[idx] )
+				return false;
+		}
+		return true;
+	}
+
 public:
 	template<typename T>
 	PolylineBase<typ::IsClosed,FPT>
-- 
2.43.0


From 710b7fb56d1c6d5a1f516c9ee92d30a01df69d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 25/91] fix: minimize() kept middle points if the direction is
 at +/-180 deg. because of rounding

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 03d7633..1226e16 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7396,7 +7396,10 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 		auto a1 = std::atan2( vx1, vy1 );
 		auto a2 = std::atan2( vx2, vy2 );
 
-		if( homog2d_abs(a1-a2) < thr::nullAngleValue() )
+		auto diff = homog2d_abs(a1-a2);
+		if( diff > M_PI )                 // direction close to +/-PI
+			diff = 2.*M_PI - diff;
+		if( diff < thr::nullAngleValue() )
 			ptset.push_back( i );
 	}
 
-- 
2.43.0


From d75bd2765768e0b53e8cab9dc468c03f5c281957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 26/91] fix: minimize() removed all the points of a finely
 sampled curve

---
 homog2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1226e16..2416389 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7382,12 +7382,14 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 {
 	auto nbpts = pl.size();
 // step 1: check each point to see if it is the middle point of two segments with same angle
+// (the previous point is the last one that is kept: if not, all the points of a smooth curve would be removed)
 	std::vector<size_t> ptset;
+	size_t idx_prev = ( istart==0 ? nbpts-1 : istart-1 );
 	for( size_t i=istart; i<iend; i++ )
 	{
 		const auto& p0 = pl._plinevec.at(i);
 		const auto& pnext = getPoint( i==nbpts-1 ? 0 : i+1 );
-		const auto& pprev = getPoint( i==0 ? nbpts-1 : i-1 );
+		const auto& pprev = getPoint( idx_prev );
 
 		auto vx1 = pnext.getX() - p0.getX();
 		auto vy1 = pnext.getY() - p0.getY();
@@ -7401,6 +7403,8 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 			diff = 2.*M_PI - diff;
 		if( diff < thr::nullAngleValue() )
 			ptset.push_back( i );
+		else
+			idx_prev = i;
 	}
 
 	if( ptset.size() == 0 ) // if no same angle segment (=no "middle point")
-- 
2.43.0


From e79ac13e95854fb4d302ad4c8935262a3a532bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 27/91] fix: FRect_::moveTo() did not build

---
 homog2d.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2416389..b2a2a4d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2885,18 +2885,17 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
-		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		moveTo( Point2d_<FPT>(x,y) );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From 6cdd2f680c4f81130329a4458b9bbc0c5af7912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 28/91] fix: union of two rectangles of different numerical
 types did not build

---
 homog2d.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b2a2a4d..eab1a07 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8195,12 +8195,10 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
   That would happen if we have an identical x in the two rect
   (thus, they DO intersect), because when sorting, the rect with smallest index
   (1 or 2) is placed first in the vector of coordinates */
-	const auto* pr1 = this;
-	const auto* pr2 = &other;
-	if( pr1->getPts().first.getX() < pr2->getPts().first.getX() )
-		std::swap( pr1, pr2 );
-	const auto& r1 = *pr1;
-	const auto& r2 = *pr2;
+	FRect_<FPT> r1( *this );
+	FRect_<FPT> r2( other );
+	if( r1.getPts().first.getX() < r2.getPts().first.getX() )
+		std::swap( r1, r2 );
 
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
-- 
2.43.0


From 98707b543917f223a7ae6b1cf35ad8341fa5b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 29/91] fix: intersection area of rectangles of different
 numerical types did not build

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index eab1a07..315505c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7894,8 +7894,8 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 		FRect_<FPT>(
 			inter.get().at(0),
 			inter.get().at(1),
-			v2.at(0),
-			v2.at(1)
+			Point2d_<FPT>( v2.at(0) ),
+			Point2d_<FPT>( v2.at(1) )
 		)
 	);
 }
-- 
2.43.0


From f54b2a333ae97a445046f91affe680204fe07c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 30/91] fix: union of two rectangles sharing only a corner or
 an edge: wrong polygon, or failing assertion

---
 homog2d.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 315505c..abefa70 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7914,16 +7914,21 @@ struct Index
 {
 	T       _value;
 	uint8_t _rect_idx=0;   // 0 means none, will be 1 or 2
+	bool    _isEnd=false;  // true if this is the upper bound of the rectangle on that axis
 
 	Index() = default;
-	Index( T v, uint8_t r )
-		: _value(v), _rect_idx(r)
+	Index( T v, uint8_t r, bool e )
+		: _value(v), _rect_idx(r), _isEnd(e)
 	{}
+/// If same value, lower bounds first: if a rectangle ends where the other one starts, these must overlap in the table
 	friend bool operator < ( const Index& i1, const Index& i2 )
 	{
-
 		if( i1._value == i2._value )
+		{
+			if( i1._isEnd != i2._isEnd )
+				return i2._isEnd;
 			return i1._rect_idx < i2._rect_idx;
+		}
 		return i1._value < i2._value;
 	}
 	friend std::ostream& operator << ( std::ostream& f, const Index& idx )
@@ -8203,16 +8208,16 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
 	int i=0;
-	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1 );
-	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1 );
-	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2 );
-	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2 );
+	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1, false );
+	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1, true );
+	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2, false );
+	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2, true );
 
 	i=0;
-	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1 );
-	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1 );
-	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2 );
-	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2 );
+	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1, false );
+	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1, true );
+	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2, false );
+	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2, true );
 
 	std::sort( vx.begin(), vx.end() );
 	std::sort( vy.begin(), vy.end() );
-- 
2.43.0


From db99c23bfb2eddecb9d70e9ea14daae495b53ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:23 +0000
Subject: [PATCH 31/91] fix: intersection area of rectangles failing because of
 inexact intersection points

---
 homog2d.hpp | 156 +++++-----------------------------------------------
 1 file changed, 13 insertions(+), 143 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index abefa70..4a02ac3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3119,16 +3119,6 @@ public:
 	operator << ( std::ostream& f, const FRect_<T>& r );
 
 private:
-	template<typename FPT2>
-	std::vector<Point2d_<FPT>> p_pointsInside( const FRect_<FPT2>& other ) const
-	{
-		std::vector<Point2d_<FPT>> out;
-		for( const auto& pt: get4Pts() )
-			if( pt.isInside( other ) )
-				out.push_back( pt );
-		return out;
-	}
-
 /// Intersection of FRect vs FRect or Circle
 /**
 - We use a \c std::set to avoid having multiple times the same point.
@@ -7743,55 +7733,20 @@ FRect_<FPT>::rotate( Rotate rot )
 \return An object of type detail::RectArea, that can be checked for success using the ()
 operator, and if success, will hold the resulting FRect_
 
-Algorithm:
-
-4 situations need to be considered, depending on the number of intersection points:
-
-- A: 2 intersection points on same segment => we have 2 points inside.
-\verbatim
-  +------+                   +------+
-  |      |                   |      |
-  |   +--+-----+          +--+----+ |
-  |   |  |     |          |  |    | |
-  |   |  |     |    or    |  |    | |  or ...
-  |   +--+-----+          +--+----+ |
-  |      |                   |      |
-  +------+                   +------+
-\endverbatim
+Algorithm: on each axis, the common part of the two ranges is in between the largest of the two lower bounds
+and the smallest of the two upper bounds.
+If that part is null (or does not exist) on one of the axis, there is no intersection area.
 
-- B: 2 intersection points on different segments => for each rectangle, 1 point is inside the other.
 \verbatim
   +------+
   |      |
   |      |
   |   +--+-----+
-  |   |  |     |   or ...
+  |   |##|     |
   +---+--+     |
       |        |
       +--------+
 \endverbatim
-
-- C: 3 points
-\verbatim
-  +------+-----+
-  |      |     |
-  |      |     |
-  +------+-----+
-  |      |
-  +------+
-\endverbatim
-
-- D: 4 intersection points: the intersection rectangle is made of these 4 points
-\verbatim
-     +------+
-     |      |
-  +--+------+-----+
-  |  |      |     |
-  |  |      |     |
-  +--+------+-----+
-     |      |
-     +------+
-\endverbatim
 */
 template<typename FPT>
 template<typename FPT2>
@@ -7799,105 +7754,20 @@ detail::RectArea<FPT>
 FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 {
 	if( *this == other )                      // if same rectangles, then
-		return detail::RectArea<FPT>(other);  // the intersection area is the rectangle
-
-	auto inter = this->intersects( other );
+		return detail::RectArea<FPT>(*this);  // the intersection area is the rectangle
 
-	if( !inter() )                        // rectangles do not intersect
-	{
-		if( this->isInside( other ) )
-			return detail::RectArea<FPT>(*this);
-		if( other.isInside( *this ) )
-			return detail::RectArea<FPT>(other);
-		return detail::RectArea<FPT>();
-	}
+	auto pts1 = this->getPts();
+	auto pts2 = other.getPts();
 
-	if( inter.size() < 2 )                // only one intersection point
-		return detail::RectArea<FPT>();   // => no intersection area!
+	auto xmin = std::max<HOMOG2D_INUMTYPE>( pts1.first.getX(),  pts2.first.getX() );
+	auto ymin = std::max<HOMOG2D_INUMTYPE>( pts1.first.getY(),  pts2.first.getY() );
+	auto xmax = std::min<HOMOG2D_INUMTYPE>( pts1.second.getX(), pts2.second.getX() );
+	auto ymax = std::min<HOMOG2D_INUMTYPE>( pts1.second.getY(), pts2.second.getY() );
 
-	if( inter.size() == 4 )  // 4 intersection points => case "D"
-		return detail::RectArea<FPT>(FRect_<FPT>( inter.get().at(0), inter.get().at(3) ) );
-
-	if( inter.size() == 3 )  // 3 intersection points => case "C"
-	{
-		auto v = inter.get();
-
-		auto xmin = std::min( v[0].getX(), std::min( v[1].getX(),v[2].getX() ) );
-		auto ymin = std::min( v[0].getY(), std::min( v[1].getY(),v[2].getY() ) );
-		auto xmax = std::max( v[0].getX(), std::max( v[1].getX(),v[2].getX() ) );
-		auto ymax = std::max( v[0].getY(), std::max( v[1].getY(),v[2].getY() ) );
-#ifndef HOMOG2D_DEBUGMODE
-		assert( xmax-xmin > thr::nullOrthogDistance() );
-		assert( ymax-ymin > thr::nullOrthogDistance() );
-#else
-		HOMOG2D_DEBUG_ASSERT(
-			( ( xmax-xmin > thr::nullOrthogDistance() )
-			&&
-			( ymax-ymin > thr::nullOrthogDistance() )) ,
-			std::scientific
-			<< "this=" << *this << " other=" << other
-			<< "\nxmax=" << xmax << " xmin=" << xmin
-			<< "\nymax=" << ymax << " ymin=" << ymin
-			<< "\nnod=" << thr::nullOrthogDistance()
-		);
-#endif
-		return detail::RectArea<FPT>( FRect_<FPT>( xmin, ymin, xmax,ymax ) );
-	}
-/*------------------------
- If we get to this point, we have 2 intersection points
-------------------------*/
-#ifndef HOMOG2D_DEBUGMODE
-	assert( inter.size() == 2 );
-#else
-/*	HOMOG2D_DEBUG_ASSERT(
-		inter.size() == 2,
-		"inter.size()=" << inter.size() << "\n-this=" << *this << "\n-other=" << other
-		<<"\n-inter:" << inter
-	);*/
-#endif
-	const auto& r1 = *this;
-	const auto& r2 = other;
-//	HOMOG2D_LOG( "r1="<<r1 << " r2="<<r2 );
-	auto v1 = r1.p_pointsInside( r2 );
-	auto v2 = r2.p_pointsInside( r1 );
-	auto c1 = v1.size();
-	auto c2 = v2.size();
-//	HOMOG2D_LOG( "c1=" << c1 << " c2=" << c2 );
-
-	if( c1==0 && c2==0 ) // unable, rectangles share a segment
+	if( xmax-xmin < thr::nullDistance() || ymax-ymin < thr::nullDistance() )
 		return detail::RectArea<FPT>();
 
-	assert(
-		( c1==1 && c2==1 )
-		||
-		( c1==0 && c2==2 )
-		||
-		( c2==0 && c1==2 )
-	);
-	if( c1==1 || c2==1 ) // only 1 point inside => the rectangle is defined by the intersection points
-		return detail::RectArea<FPT>( FRect_<FPT>( inter.get().at(0), inter.get().at(1) ) );
-
-// here: 2 points inside, then build rectangle using the 4 points:
-// the 2 inside, and the two intersection points
-	assert( c1 == 2 || c2 == 2 );
-
-	if( c1 == 2 )
-		return detail::RectArea<FPT>(
-			FRect_<FPT>(
-				inter.get().at(0),
-				inter.get().at(1),
-				v1.at(0),
-				v1.at(1)
-			)
-		);
-	return detail::RectArea<FPT>(
-		FRect_<FPT>(
-			inter.get().at(0),
-			inter.get().at(1),
-			Point2d_<FPT>( v2.at(0) ),
-			Point2d_<FPT>( v2.at(1) )
-		)
-	);
+	return detail::RectArea<FPT>( FRect_<FPT>( xmin, ymin, xmax, ymax ) );
 }
 
 namespace priv {
-- 
2.43.0


From 16cae4778b4f2d04ef729296c3e007b765362a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:07 +0000
Subject: [PATCH 32/91] fix: union of two rectangles with coordinates differing
 by rounding only: wrong polygon, or failing assertion

---
 homog2d.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4a02ac3..4c8a6f6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8071,7 +8071,22 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
   (thus, they DO intersect), because when sorting, the rect with smallest index
   (1 or 2) is placed first in the vector of coordinates */
 	FRect_<FPT> r1( *this );
-	FRect_<FPT> r2( other );
+	auto ppts1 = r1.getPts();
+	auto ppts2 = FRect_<FPT>( other ).getPts();
+
+// coordinates that are only different because of numerical rounding must be identical in the table
+	auto align = []( FPT v, FPT ref1, FPT ref2 )
+	{
+		if( homog2d_abs(v-ref1) < thr::nullDistance() )
+			return ref1;
+		return homog2d_abs(v-ref2) < thr::nullDistance() ? ref2 : v;
+	};
+	FRect_<FPT> r2(
+		align( ppts2.first.getX(),  ppts1.first.getX(), ppts1.second.getX() ),
+		align( ppts2.first.getY(),  ppts1.first.getY(), ppts1.second.getY() ),
+		align( ppts2.second.getX(), ppts1.first.getX(), ppts1.second.getX() ),
+		align( ppts2.second.getY(), ppts1.first.getY(), ppts1.second.getY() )
+	);
 	if( r1.getPts().first.getX() < r2.getPts().first.getX() )
 		std::swap( r1, r2 );
 
-- 
2.43.0


From 1dd670c18ce25f03f61d5e5cc1e9ae7a474a5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 33/91] fix: convexHull() did not build with a list or an
 array, as documented

---
 homog2d.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4c8a6f6..e586136 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11546,7 +11546,7 @@ namespace base {
 /**
 - Graham scan algorithm: https://en.wikipedia.org/wiki/Graham_scan
 
-\todo 20230728: make this function accept also std::array and std::list (using Sfinae alogn with trait::IsContainer)
+Input can be any container holding points: \c std::vector, \c std::array or \c std::list, see overload below
 */
 template<typename FPT>
 CPolyline_<FPT>
@@ -11617,6 +11617,20 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 	return CPolyline_<FPT>( vout );
 }
 
+/// Computes and returns the convex hull of a set of points stored in a \c std::array or a \c std::list (free function)
+template<
+	typename T,
+	typename std::enable_if<
+		trait::IsContainer<T>::value,
+		T
+	>::type* = nullptr
+>
+auto
+convexHull( const T& input )
+{
+	return convexHull( std::vector<typename T::value_type>( std::begin(input), std::end(input) ) );
+}
+
 } // namespace base
 
 /// Return convex hull (member function implementation)
-- 
2.43.0


From 9014b99852e6fb233dc8c99adc4c21db34cf9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 34/91] fix: convexHull() gave a wrong polygon or failed if
 points are aligned or repeated

---
 homog2d.hpp | 89 ++++++++++++++++++++++++-----------------------------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e586136..ca0b86f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11454,12 +11454,13 @@ getPivotPoint( const std::vector<Point2d_<FPT>>& in )
 }
 
 //------------------------------------------------------------------
-/// Sorts points by angle between the lines with horizontal axis
+/// Sorts points by angle between the lines with horizontal axis.
+/// Points having the same angle are sorted by their distance to the pivot point (thus, the points identical to it come first)
 template<typename FPT>
 std::vector<size_t>
 sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 {
-	assert( in.size()>3 );
+	assert( in.size()>2 );
 
 // step 1: create new vector holding the indexes of the points, including the pivot point (will be in first position)
 	std::vector<size_t> out( in.size() );
@@ -11468,19 +11469,24 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 	auto pt0 = in[piv_idx];
 
 // step 2: sort points by angle of lines between the current point and pivot point
-	std::sort(
+	std::stable_sort(
 		out.begin()+1,
 		out.end(),
 		[&]                  // lambda
 		( size_t i1, size_t i2 )
 		{
-			auto pt1 = in[i1];
-			auto pt2 = in[i2];
-			auto dx1 = pt1.getX() - pt0.getX();
-			auto dy1 = pt1.getY() - pt0.getY();
-			auto dx2 = pt2.getX() - pt0.getX();
-			auto dy2 = pt2.getY() - pt0.getY();
-			return ((dx1 * dy2 - dx2 * dy1) > 0);
+			auto dx1 = static_cast<HOMOG2D_INUMTYPE>( in[i1].getX() ) - pt0.getX();
+			auto dy1 = static_cast<HOMOG2D_INUMTYPE>( in[i1].getY() ) - pt0.getY();
+			auto dx2 = static_cast<HOMOG2D_INUMTYPE>( in[i2].getX() ) - pt0.getX();
+			auto dy2 = static_cast<HOMOG2D_INUMTYPE>( in[i2].getY() ) - pt0.getY();
+			auto d1 = dx1*dx1 + dy1*dy1;
+			auto d2 = dx2*dx2 + dy2*dy2;
+			if( d1 == 0. || d2 == 0. )      // no angle if same point as pivot
+				return d1 < d2;
+			auto det = dx1 * dy2 - dx2 * dy1;
+			if( det == 0. )
+				return d1 < d2;
+			return det > 0.;
 		}
 	);
 	return out;
@@ -11493,9 +11499,9 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 - 1 --> Clockwise
 - 2 --> Counterclockwise
 
-\todo 20240326: this is subject to numerical instability, as it is based on differences.
+The value is computed the same way as in sortPoints()
 
-\todo 20230212: replace const value HOMOG2D_THR_ZERO_DETER with related static function
+\todo 20240326: this is subject to numerical instability, as it is based on differences.
 */
 template<typename T>
 int orientation( Point2d_<T> p, Point2d_<T> q, Point2d_<T> r )
@@ -11507,9 +11513,9 @@ int orientation( Point2d_<T> p, Point2d_<T> q, Point2d_<T> r )
 	HOMOG2D_INUMTYPE rx = r.getX();
 	HOMOG2D_INUMTYPE ry = r.getY();
 
-	auto val = (qy - py) * (rx - qx) - (qx - px) * (ry - qy);
+	auto val = (qy - py) * (rx - px) - (qx - px) * (ry - py);
 
-	if( homog2d_abs(val) < HOMOG2D_THR_ZERO_DETER )
+	if( val == 0. )
 		return 0;  // collinear
     return (val > 0 ? 1 : -1 ); // clock or counterclock wise
 }
@@ -11552,7 +11558,7 @@ template<typename FPT>
 CPolyline_<FPT>
 convexHull( const std::vector<Point2d_<FPT>>& input )
 {
-	if( input.size() < 4 )  // if 3 pts or less, then the hull is equal to input set
+	if( input.size() < 3 )  // if less than 3 pts, then the hull is equal to input set
 		return CPolyline_<FPT>( input );
 
 // step 1: find pivot (point with smallest Y coord)
@@ -11561,44 +11567,31 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 // step 2: sort points by angle of lines between the current point and pivot point
 	auto v2 = priv::chull::sortPoints( input, pivot_idx );
 
-	std::stack<size_t> firstPoint;
+// step 3: iterate, and keep only the points that define a left turn
 	priv::chull::Mystack hull;
-	hull.push( v2[0] );
-	hull.push( v2[1] );
-	hull.push( v2[2] );
-
-	firstPoint.push( 0 );
-	firstPoint.push( 1 );
-
-// step 3: iterate
-	size_t idx1 = 1;
-	size_t idx2 = 2;
-	size_t idx3 = 3;
-	do
+	for( auto idx: v2 )
 	{
-//		HOMOG2D_LOG( "** loop start, idx1=" << idx1 << ", idx2=" << idx2  << ", idx3=" << idx3 << ", hull " << hull.getVect() );
-		auto p = input.at( v2[idx1] );
-		auto q = input.at( v2[idx2] );
-		auto r = input.at( v2[idx3] );
-		auto orient = priv::chull::orientation( p, q, r );
-//		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
+		bool skip = false;
+		while( !hull.empty() && !skip )
 		{
-			hull.push( v2[idx3] );
-			idx1 = idx2;
-			idx2 = idx3;
-			idx3++;
-			firstPoint.push( idx1 );
-		}
-		else
-		{
-			hull.pop();
-			idx2=idx1; // idx3 stays the same
-			firstPoint.pop();
-			idx1 = firstPoint.top();
+			const auto& v = hull.getVect();
+			const auto& q = input.at( v.back() );
+			const auto& r = input.at( idx );
+			if( r == q || r == input.at( v.front() ) )     // repeated point
+				skip = true;
+			if( skip || v.size() == 1 )
+				break;
+			const auto& p = input.at( v.at( v.size()-2 ) );
+			if( priv::chull::orientation( p, q, r ) == -1 )
+				break;
+			if( v.size() == 2 && p.distTo(r) < p.distTo(q) )   // aligned with pivot, keep the farthest
+				skip = true;
+			else
+				hull.pop();
 		}
+		if( !skip )
+			hull.push( idx );
 	}
-	while( idx3 < v2.size() );
 
 // final step: copy hull indexes to vector of points
 	const auto v = hull.getVect();
-- 
2.43.0


From 6a379fd8ab8d31bb227df4478738159bdb0f00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:50 +0000
Subject: [PATCH 35/91] fix: minimum enclosing circle: wrong circle or
 exception, no std::list, library checks left disabled

---
 homog2d.hpp | 82 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ca0b86f..566909a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5650,6 +5650,19 @@ Circle_<FPT>::set(
 //------------------------------------------------------------------
 namespace priv {
 
+/// Free Function to check whether a circle encloses the given point
+/**
+Contrary to Point2d_::isInside(), a point lying on the circle (up to rounding) is considered here as enclosed.
+*/
+template<typename FPT1,typename PT>
+bool isEnclosed(
+	const PT&              pt,
+	const Circle_<FPT1>&   circ
+)
+{
+	return pt.distTo( circ.center() ) <= circ.radius() * ( (HOMOG2D_INUMTYPE)1. + thr::nullDistance() );
+}
+
 /// Free Function to check whether a circle encloses the given points
 template<typename FPT1,typename PT>
 bool is_valid_circle(
@@ -5658,11 +5671,27 @@ bool is_valid_circle(
 )
 {
 	for( const auto& pt: pts )
-		if( !pt.isInside( circ ) )
+		if( !isEnclosed( pt, circ ) )
 			return false;
 	return true;
 }
 
+/// Helper class, disables the checking on radius in the current scope, see Circle_::set( const T& )
+struct NoRadiusCheck
+{
+	const bool _previous;
+	NoRadiusCheck() : _previous( thr::doNotCheckRadius() )
+	{
+		thr::doNotCheckRadius() = true;
+	}
+	~NoRadiusCheck()
+	{
+		thr::doNotCheckRadius() = _previous;
+	}
+	NoRadiusCheck( const NoRadiusCheck& ) = delete;
+	NoRadiusCheck& operator = ( const NoRadiusCheck& ) = delete;
+};
+
 } // namespace priv
 
 //------------------------------------------------------------------
@@ -5690,7 +5719,22 @@ Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
 			if( priv::is_valid_circle( c, P ) )
 				return c;
 		}
-	return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1], P[2] ); // circle from 3 points
+
+// circle from 3 points. Here, we know these form an acute triangle, so we can use the direct formula:
+// no need to check for colinearity (and no failure if one of the sides is very short)
+	auto bx = P[1].getX() - P[0].getX();
+	auto by = P[1].getY() - P[0].getY();
+	auto cx = P[2].getX() - P[0].getX();
+	auto cy = P[2].getY() - P[0].getY();
+	auto b2 = bx*bx + by*by;
+	auto c2 = cx*cx + cy*cy;
+	auto d  = (HOMOG2D_INUMTYPE)2. * ( bx*cy - by*cx );
+	auto ux = ( cy*b2 - by*c2 ) / d;
+	auto uy = ( bx*c2 - cx*b2 ) / d;
+	return Circle_<HOMOG2D_INUMTYPE>(
+		Point2d_<HOMOG2D_INUMTYPE>( P[0].getX() + ux, P[0].getY() + uy ),
+		homog2d_sqrt( ux*ux + uy*uy )
+	);
 }
 
 //------------------------------------------------------------------
@@ -5725,7 +5769,7 @@ Circle_<FPT>::p_WelzlHelper(
 
 	// Get the MEC circle d from the set of points P - {p}
 	auto d = p_WelzlHelper( P, R, n - 1 );
-	if( p.isInside( d ) )
+	if( priv::isEnclosed( p, d ) )
 			return d;
 
 	// Otherwise, must be on the boundary of the MEC
@@ -5760,26 +5804,30 @@ Circle_<FPT>::set( const T& pts )
 	if( pts.size() < 2 )
 		HOMOG2D_THROW_ERROR_1( "unable to build a circle from a single point" );
 
-	if( pts.size() == 2 )
+// the points are considered relatively to the first one, so that the
+// computation is as accurate far from the origin
+	const Point2d_<HOMOG2D_INUMTYPE> pt0( *std::begin(pts) );
+	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy;
+	P_copy.reserve( pts.size() );
+	for( const auto& pt: pts )
 	{
-		set( pts[0], pts[1] );
-		return;
+		Point2d_<HOMOG2D_INUMTYPE> p( pt );
+		P_copy.emplace_back( p.getX() - pt0.getX(), p.getY() - pt0.getY() );
 	}
-
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
-	{
-		set( pts[0], pts[1], pts[2] );
-		return;
-	}
-
-	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy( std::begin(pts), std::end(pts) );
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
 
-	h2d::thr::doNotCheckRadius() = true;
-	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
+	Circle_<HOMOG2D_INUMTYPE> cir;
+	{
+		priv::NoRadiusCheck nrc;
+		cir = p_WelzlHelper( P_copy, R, P_copy.size() );
+	}
+#ifndef HOMOG2D_NOCHECKS
+	if( cir.radius() < thr::nullDistance() )
+		HOMOG2D_THROW_ERROR_1( "unable to build circle, points are identical" );
+#endif
+	cir.translate( pt0.getX(), pt0.getY() );
 	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 8caa2cc671b907f4191153df502b1955adaadb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 36/91] fix: getLine() with two circles did not build

---
 homog2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 566909a..e6b416d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10738,11 +10738,14 @@ getSegment( const T1& c1, const T2& c2 )
 }
 
 /// Free function, returns line between two circle centers
-template<typename FPT1,typename FPT2,typename FPT3>
+template<typename FPT1,typename FPT2>
 Line2d_<FPT1>
-getLine( const Circle_<FPT2>& c1, const Circle_<FPT3>& c2 )
+getLine( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 {
-	return Line2d_<FPT1>( c1.center(), c2.center() );
+	return Line2d_<FPT1>(
+		Point2d_<HOMOG2D_INUMTYPE>( c1.center() ),
+		Point2d_<HOMOG2D_INUMTYPE>( c2.center() )
+	);
 }
 
 /// Free function, returns middle point of segment
-- 
2.43.0


From 4d58655f53c791eb0e64224617193780c3b3c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 37/91] fix: circle from 3 points of different numerical types
 did not build

---
 homog2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e6b416d..e566d89 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5624,11 +5624,12 @@ template<typename FPT>
 template<typename T1,typename T2,typename T3>
 void
 Circle_<FPT>::set(
-	const Point2d_<T1>& pt1,
-	const Point2d_<T2>& pt2,
-	const Point2d_<T3>& pt3
+	const Point2d_<T1>& p1,
+	const Point2d_<T2>& p2,
+	const Point2d_<T3>& p3
 )
 {
+	const Point2d_<HOMOG2D_INUMTYPE> pt1( p1 ), pt2( p2 ), pt3( p3 ); // may be of different types
 #ifndef HOMOG2D_NOCHECKS
 	if( areCollinear( pt1, pt2, pt3 ) )
 		HOMOG2D_THROW_ERROR_1( "Unable, points are colinear" );
-- 
2.43.0


From d1efe132c0902248d84acb62a110bc22cf861d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 38/91] fix: getTanSegs() failed far from the origin, and gave
 NaN if one circle is inside the other

---
 homog2d.hpp | 69 +++++++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 45 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e566d89..ed9aae6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10848,57 +10848,36 @@ getTanSegs( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 		HOMOG2D_THROW_ERROR_1( "c1 and c2 identical" );
 #endif
 
-// if same radius, return the two segments parallel to the one joining the centers
-	if( homog2d_abs( c1.radius() - c2.radius() ) < thr::nullDistance() )
-	{
-		Segment_<HOMOG2D_INUMTYPE> seg_center( c1.center(), c2.center() );
-		return seg_center.getParallelSegs( c1.radius() );
-	}
-
 // check which one is the smallest
 	Circle_<HOMOG2D_INUMTYPE> cA = c1;
 	Circle_<HOMOG2D_INUMTYPE> cB = c2;
-	if( c1.radius() < c2.radius() )
+	if( c1.radius() <= c2.radius() )
 		std::swap( cA, cB );
 
-	auto h = dist( cA.center(), cB.center() );
-
-	auto theta = homog2d_asin( ( cA.radius() - cB.radius() ) / h ) ;
-	auto hcost = h * homog2d_cos(theta);
-
-// get rotated lines at center of CB
-	auto l0 = cA.center() * cB.center();
-	auto l1 = l0.getRotatedLine( cB.center(),  theta );
-	auto l2 = l0.getRotatedLine( cB.center(), -theta );
-
-// build segments by getting the opposite point
-
-	auto ppts1 = l1.getPoints( cB.center(), hcost );
-	auto p1 = ppts1.first;
-	if( ppts1.second.distTo( cA.center()) < p1.distTo( cA.center()) )
-		p1 = ppts1.second;
-
-	auto ppts2 = l2.getPoints( cB.center(), hcost );
-	auto p2 = ppts2.first;
-	if( ppts2.second.distTo( cA.center()) < p2.distTo( cA.center()) )
-		p2 = ppts2.second;
-//	std::cout <<"p1=" << p1 << " p2=" << p2 << '\n';
-
-	auto seg1 = Segment_<HOMOG2D_INUMTYPE>( p1, cB.center() );
-	auto seg2 = Segment_<HOMOG2D_INUMTYPE>( p2, cB.center() );
-
-	auto psegs1 = seg1.getParallelSegs( cB.radius() );
-	if( psegs1.first.distTo(cA.center()) <  psegs1.second.distTo(cA.center()) )
-		std::swap( psegs1.first, psegs1.second );
-
-	auto psegs2 = seg2.getParallelSegs( cB.radius() );
-	if( psegs2.second.distTo(cA.center()) <  psegs2.first.distTo(cA.center()) )
-		std::swap( psegs2.first, psegs2.second );
+	auto dx = cB.center().getX() - cA.center().getX();
+	auto dy = cB.center().getY() - cA.center().getY();
+	auto h  = homog2d_sqrt( dx*dx + dy*dy );
+	auto dr = cA.radius() - cB.radius();
+#ifndef HOMOG2D_NOCHECKS
+	if( h - dr < thr::nullDistance() )
+		HOMOG2D_THROW_ERROR_1( "unable, one of the circles is inside the other" );
+#endif
 
-	return std::make_pair(
-		psegs1.first,
-		psegs2.second
-	);
+// for each segment, the radii at its two ends are both parallel to the same unit vector,
+// having an angle such as cos=dr/h with the line joining the centers
+	auto ct = dr / h;
+	auto st = homog2d_sqrt( (h-dr) * (h+dr) ) / h;
+	auto tanSeg = [&cA,&cB,&dx,&dy,&h,&ct]( HOMOG2D_INUMTYPE s )  // lambda
+	{
+		auto nx = ( dx * ct - dy * s ) / h;
+		auto ny = ( dy * ct + dx * s ) / h;
+		auto ptA = cA.center();
+		auto ptB = cB.center();
+		ptA.translate( cA.radius() * nx, cA.radius() * ny );
+		ptB.translate( cB.radius() * nx, cB.radius() * ny );
+		return Segment_<HOMOG2D_INUMTYPE>( ptA, ptB );
+	};
+	return std::make_pair( tanSeg( -st ), tanSeg( st ) );
 }
 
 /// Returns the 4 points of the rectangle (free function)
-- 
2.43.0


From 96433cfeccd1e13673519c06d91cd3b9f95f33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:07 +0000
Subject: [PATCH 39/91] fix: bounding box of a set of variants holding a line
 or an empty polyline was wrong, only std::vector was handled

---
 homog2d.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ed9aae6..275aaae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10316,32 +10316,31 @@ namespace priv {
 /**
 \note Here, we DO NOT preallocate the vector, because if the container holds lines, then no point pair will be added for these elements.
 If we would have preallocate with 2 x size of input vector, then some default-constructed points could sneak in, and introduce an error.
-
-\todo 20240513: At present, this is only implemented for std::vector. Let it handle std::list and std::array.
 */
-template<typename FPT>
+template<typename FPT,typename T>
 auto
-getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
+getBB_CommonType( const T& v_var )
 {
 	HOMOG2D_START;
 	HOMOG2D_DEBUG_ASSERT( v_var.size(), "cannot compute bounding box of empty set of variant" );
 
 	std::vector<Point2d_<FPT>> vpts;
 	vpts.reserve( v_var.size()*2 );
-	PointPair_<FPT> ppair;
 	for( const auto& elem: v_var )
 	{
 		try
 		{
-			ppair = std::visit( fct::PtPairFunct{}, elem );
+			PointPair_<FPT> ppair = std::visit( fct::PtPairFunct{}, elem );
+			vpts.push_back( ppair.first );
+			vpts.push_back( ppair.second );
 		}
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
 		}
-		vpts.push_back( ppair.first );
-		vpts.push_back( ppair.second );
 	}
+	if( vpts.empty() )
+		HOMOG2D_THROW_ERROR_1( "unable, no element of the container has a bounding box" );
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
 
@@ -10403,7 +10402,9 @@ getBB( const T& t )
 						HOMOG2D_THROW_ERROR_1( "Unable, cannot compute BoundingBox of a container holding Line2d objects" );
 					}
 					else
-						return priv::getBB_CommonType( t );
+						return priv::getBB_CommonType<
+							typename std::variant_alternative_t<0,typename T::value_type>::FType
+						>( t );
 #else
 					HOMOG2D_THROW_ERROR_1( "Unable, cannot compute BoundingBox of a container holding Line2d objects" );
 #endif
-- 
2.43.0


From 7b6b513d9ce34d1345df1ce4a2a8fe19f8e2b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 40/91] fix: getBB() with a variant did not build

---
 homog2d.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 275aaae..8697d84 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10361,7 +10361,14 @@ getBB( const T& t )
 	HOMOG2D_START;
 
 	if constexpr( !trait::IsContainer<T>::value ) // if not a container,
-		return t.getBB();                         // then call the member function
+	{
+#ifdef HOMOG2D_ENABLE_VRTP
+		if constexpr( trait::IsVariant<T>::value )
+			return std::visit( fct::BBFunct{}, t );
+		else
+#endif
+			return t.getBB();                     // then call the member function
+	}
 	else
 	{
 		if( t.empty() )
-- 
2.43.0


From 0260601ea8ac3f6d0528e810dbdde6150ba2f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 41/91] fix: no bounding box for a container of oriented
 segments

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8697d84..e2725cf 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2123,6 +2123,7 @@ template <typename V, size_t n> struct IsArray<std::array<V, n>> : std::true_typ
 /// Traits class, used for getBB() set of functions
 template<class>   struct IsSegment              : std::false_type {};
 template<class T> struct IsSegment<Segment_<T>> : std::true_type  {};
+template<class T> struct IsSegment<OSegment_<T>>: std::true_type  {};
 template<class>   struct IsPoint                : std::false_type {};
 template<class T> struct IsPoint<Point2d_<T>>   : std::true_type  {};
 
-- 
2.43.0


From 3a86383916a4b68b5892eb191cef8c222dea2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 42/91] fix: bounding box of an empty polyline and another
 object threw

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e2725cf..5a6c596 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10501,7 +10501,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10513,7 +10513,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10523,7 +10523,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From 4551ed68e5fa46c04e397263bb4537b23017bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 43/91] fix: bounding box of a flat polyline of three points or
 more and another object threw

---
 homog2d.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5a6c596..05db48b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5964,8 +5964,10 @@ struct PolylineAttribs
 };
 
 //------------------------------------------------------------------
-/// Returns the bounding box of points in vector/list/array of points \c vpts (free function)
+/// Returns the min and max coordinates of points in vector/list/array of points \c vpts (free function)
 /**
+No checking here: the two points may share a coordinate
+
 \todo This loops twice on the points. Maybe some improvement here.
 */
 template<
@@ -5976,7 +5978,7 @@ template<
 	>::type* = nullptr
 >
 PointPair_<typename T::value_type::FType>
-getBB_Points( const T& vpts )
+getMinMax_Points( const T& vpts )
 {
 	HOMOG2D_START;
 	using FPT = typename T::value_type::FType;
@@ -6004,7 +6006,26 @@ getBB_Points( const T& vpts )
 	auto p1 = Point2d_<HOMOG2D_INUMTYPE>( mm_x.first->getX(),   mm_y.first->getY()  );
 	auto p2 = Point2d_<HOMOG2D_INUMTYPE>( mm_x.second->getX(),  mm_y.second->getY() );
 
+	return std::make_pair( p1, p2 );
+}
+
+//------------------------------------------------------------------
+/// Returns the points of the bounding box of points in vector/list/array of points \c vpts
+template<
+	typename T,
+	typename std::enable_if<
+		trait::IsContainer<T>::value,
+		T
+	>::type* = nullptr
+>
+PointPair_<typename T::value_type::FType>
+getBB_Points( const T& vpts )
+{
+	auto ppts = getMinMax_Points( vpts );
+
 #ifndef HOMOG2D_NOCHECKS
+	const auto& p1 = ppts.first;
+	const auto& p2 = ppts.second;
 	if( p1.distTo( p2 ) < thr::nullDistance() )
 		HOMOG2D_THROW_ERROR_1(
 			"unable to compute bounding box of set, identical points:\n -p1:"<< p1 << "\n -p2:" << p2
@@ -6016,7 +6037,7 @@ getBB_Points( const T& vpts )
 		);
 #endif // HOMOG2D_NOCHECKS
 
-	return std::make_pair( p1, p2 );
+	return ppts;
 }
 
 //------------------------------------------------------------------
@@ -10120,7 +10141,7 @@ getPointPair( const T& poly )
 		const auto& pts = poly.getPts();
 		return std::make_pair( pts[0], pts[1] );
 	}
-	return priv::getBB_Points( poly.getPts() );
+	return priv::getMinMax_Points( poly.getPts() ); // may be flat
 }
 
 /// Returns pair of points defining a BB of a Point2d
-- 
2.43.0


From 0d1d7b9cbcdcec23e8e7a4f1267bf2a217479abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:49 +0000
Subject: [PATCH 44/91] fix: oriented bounding box of an ellipse threw or was
 degenerate with float or after some transformations

---
 homog2d.hpp | 63 +++++++++--------------------------------------------
 1 file changed, 10 insertions(+), 53 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 05db48b..3aa4cd5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8734,68 +8734,25 @@ Ellipse_<FPT>::getBB() const
 //------------------------------------------------------------------
 /// Returns oriented bounding box of ellipse as a closed Polyline
 /**
-Algorithm:
- - build line \c liH going through major axis, by using center point and
- point on semi-major axis, intersecting ellipse
- - get opposite point \c ptB, lying on line and at distance \c a
- - get the two parallel lines to \c liH, at a distance \c b
- - get the two orthogonal lines at \c ptA and \c ptB
-
-\todo 20240330: unclear, the text above does not match what is done below (or does it?).
-Clarify that, and build a gif showing how this is done.
+The four points are computed from the center point, by adding/substracting the two half-axis vectors.
 */
 template<typename FPT>
 CPolyline_<FPT>
 Ellipse_<FPT>::getOBB() const
 {
-// step 1: build ptA using angle
 	auto par = p_getParams<HOMOG2D_INUMTYPE>();
-	auto dy = par.sint * par.a;
-	auto dx = par.cost * par.a;
-	Point2d_<FPT> ptA(
-		par.x0 + dx,
-		par.y0 + dy
-	);
-	auto pt0 = Point2d_<HOMOG2D_INUMTYPE>( par.x0, par.y0 );
 
-// step 2: build main-axis line, going through center and ptA
-	auto li_H = ptA * pt0;
-
-// step 3: get ptB, using line and distance
-	auto ppts = li_H.getPoints( pt0, par.a );
-	auto ptB = ppts.first;
-	if( ptB == ptA )
-		ptB = ppts.second;
-
-	auto para = getParallelLines( li_H, par.b );
-	auto li_V1 = li_H.getOrthogLine( ptA );
-	auto li_V2 = li_H.getOrthogLine( ptB );
+// vectors along main axis and along minor axis
+	HOMOG2D_INUMTYPE ux =  par.cost * par.a;
+	HOMOG2D_INUMTYPE uy =  par.sint * par.a;
+	HOMOG2D_INUMTYPE vx = -par.sint * par.b;
+	HOMOG2D_INUMTYPE vy =  par.cost * par.b;
 
 	CPolyline_<FPT> out;
-#ifndef	HOMOG2D_DEBUGMODE
-	out.p_addPoint( para.first  * li_V1 );
-	out.p_addPoint( para.second * li_V1 );
-	out.p_addPoint( para.second * li_V2 );
-	out.p_addPoint( para.first  * li_V2 );
-#else
-	auto p1 = para.first  * li_V1;
-	auto p2 = para.second * li_V1;
-	auto p3 = para.second * li_V2;
-	auto p4 = para.first  * li_V2;
-	HOMOG2D_DEBUG_ASSERT(
-		( p2!=p1 && p3!=p2 && p4!=p3 ),
-		"p1=" << p1 << " p2=" << p2 << " p3=" << p3 << " p4=" << p4
-		<< "\n para.1=" << para.first
-		<< "\n li_V1=" << li_V1
-		<< "\n ptA=" << ptA
-		<< "\n ptB=" << ptB
-		<< "\n " << ppts
-	);
-	out.p_addPoint( p1 );
-	out.p_addPoint( p2 );
-	out.p_addPoint( p3 );
-	out.p_addPoint( p4 );
-#endif
+	out.p_addPoint( Point2d_<FPT>( par.x0 + ux + vx, par.y0 + uy + vy ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0 + ux - vx, par.y0 + uy - vy ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0 - ux - vx, par.y0 - uy - vy ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0 - ux + vx, par.y0 - uy + vy ) );
 	return out;
 }
 
-- 
2.43.0


From d77c7cfbfdfc054ee304ebab2d556c97b4969ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:23 +0000
Subject: [PATCH 45/91] fix: rotating a polyline around one of its own points
 gave a wrong result

---
 homog2d.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3aa4cd5..ab2f4e3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7389,9 +7389,12 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+// copy needed: refpt can be one of the points of this object
+	const auto x0 = refpt.getX();
+	const auto y0 = refpt.getY();
+	translate( -x0, -y0 );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( x0, y0 );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 2d617371f271f65700f839dce187276c058404b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 46/91] fix: nearest/farthest point failed with duplicates of
 the query point, and did not build with std::list

---
 homog2d.hpp | 56 +++++++++++++++++++----------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ab2f4e3..b0ece0b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11115,31 +11115,19 @@ findPoint(
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	decltype( priv::sqDist( qpt, qpt ) ) resDist;
-	size_t startIdx = 1;
+	decltype( priv::sqDist( qpt, qpt ) ) resDist{};
 	size_t resIdx = 0;
+	bool   found  = false; // becomes true once a point different from the query point is found
+	size_t i = 0;
 
-// if point is the first one of the container, then
-// initialize with the second one
-	if( cont[0] == qpt )
+	for( const auto& pt: cont )
 	{
-		startIdx++;
-		resIdx++;
-		resDist = priv::sqDist( qpt, cont[1] );
-	}
-	else // initialize with first point
-	{
-		resDist = priv::sqDist( qpt, cont[0] );
-	}
-
-	for( size_t i=startIdx; i<cont.size(); i++ )
-	{
-		if( qpt != cont[i] )
+		if( qpt != pt )
 		{
-			auto currentDist = priv::sqDist( qpt, cont[i] );
+			auto currentDist = priv::sqDist( qpt, pt );
 			if constexpr( std::is_same_v<S_WHAT, F_MIN> )
 			{
-				if( currentDist < resDist )
+				if( !found || currentDist < resDist )
 				{
 					resIdx  = i;
 					resDist = currentDist;
@@ -11147,13 +11135,15 @@ findPoint(
 			}
 			else
 			{
-				if( currentDist > resDist )
+				if( !found || currentDist > resDist )
 				{
 					resIdx  = i;
 					resDist = currentDist;
 				}
 			}
+			found = true;
 		}
+		i++;
 	}
 	return resIdx;
 }
@@ -11193,35 +11183,29 @@ findNearestFarthestPoint( const Point2d_<FPT>& pt, const T& cont )
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	auto maxDist = priv::sqDist( pt, cont[0] );
-	auto minDist = maxDist;
+	decltype( priv::sqDist( pt, pt ) ) maxDist{}, minDist{};
 	size_t idxMin = 0;
 	size_t idxMax = 0;
-	size_t startIdx = 1;
-	if( pt == cont[0] )
-	{
-		idxMin++;
-		idxMax++;
-		startIdx++;
-		maxDist = priv::sqDist( pt, cont[1] );
-		minDist = maxDist;
-	}
-	for( size_t i=startIdx; i<cont.size(); i++ )
+	bool   found  = false; // becomes true once a point different from the query point is found
+	size_t i = 0;
+	for( const auto& cpt: cont )
 	{
-		if( pt != cont[i] )
+		if( pt != cpt )
 		{
-			auto currentDist = priv::sqDist( pt, cont[i] );
-			if( currentDist > maxDist )
+			auto currentDist = priv::sqDist( pt, cpt );
+			if( !found || currentDist > maxDist )
 			{
 				idxMax  = i;
 				maxDist = currentDist;
 			}
-			if( currentDist < minDist )
+			if( !found || currentDist < minDist )
 			{
 				idxMin  = i;
 				minDist = currentDist;
 			}
+			found = true;
 		}
+		i++;
 	}
 	return std::make_pair(idxMin, idxMax);
 }
-- 
2.43.0


From 798bf2976d454918203b1ded12cd1bf60b8a603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 47/91] fix: getPtsInside() did not build with std::list

---
 homog2d.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b0ece0b..394b1f4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11230,8 +11230,6 @@ getPtsInside(
 	static_assert( !trait::IsArray<CONT>::value, "Cannot use std::array as container" );
 
 	CONT out;
-	out.reserve( input_set.size() );
-
 	for( auto pt: input_set )
 		if( pt.isInside( prim ) )
 			out.push_back( pt );
-- 
2.43.0


From f68deabb0cc30822aafbfbc4b5543e4fa749c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 48/91] fix: svg path import ignored or misread legal
 separators and number forms

---
 homog2d.hpp | 62 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 394b1f4..e181c5a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12552,7 +12552,7 @@ parsePoints( const char* pts )
 inline
 bool isDigit( char c )
 {
-	return ( (c >= '0' && c <= '9') || c == '.' || c == '-' );
+	return ( (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' );
 }
 
 inline
@@ -12563,13 +12563,24 @@ bool svgPathCommandIsAllowed(char c)
 	return false;
 }
 
-/// Get next element in svg path string.
+/// Returns true for the characters that can be found between two elements in a svg path string
+inline
+bool
+isSeparator( char c )
+{
+	return ( c == ' ' || c == ',' || c == '\t' || c == '\n' || c == '\r' || c == '\f' );
+}
+
+/// Get next element in svg path string (returns an empty string if nothing left).
+/**
+No separator is required between two numbers if not ambiguous: "10-20" holds two numbers, so does "1.5.5".
+*/
 inline
 std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( *it == ' ' || *it == ',' ) // skip spaces and commas
+	while( it < str.cend() && isSeparator(*it) )
 		it++;
 
 	if( it >= str.cend() )
@@ -12582,17 +12593,48 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 	}
 	else
 	{
-		while( isDigit(*it) && it < str.cend() )
+		bool hasDot = false;
+		bool hasExp = false;
+		for( ; it < str.cend(); it++ )
 		{
-			out.push_back( *it );
-			it++;
+			auto c = *it;
+			if( c == '.' )
+			{
+				if( hasDot || hasExp )
+					break;
+				hasDot = true;
+			}
+			else if( c == '-' || c == '+' )
+			{
+				if( !out.empty() && out.back() != 'e' && out.back() != 'E' )
+					break;
+			}
+			else if( c == 'e' || c == 'E' )
+			{
+				if( hasExp )
+					break;
+				hasExp = true;
+			}
+			else if( !isDigit(c) )
+				break;
+			out.push_back( c );
 		}
-//		std::cout << "getNextElem() DIGITS:-" << out << "- #=" << out.size() << '\n';
-//		return out;
 	}
 	return out;
 }
 
+/// Converts element to numerical value, throws if not a valid number
+inline
+double
+getNumValue( const std::string& elem )
+{
+	size_t nb = 0;
+	auto val = std::stod( elem, &nb );
+	if( nb != elem.size() )
+		HOMOG2D_THROW_ERROR_1( "invalid numerical value:-" << elem << '-' );
+	return val;
+}
+
 /// Returns nb of expected values for a given SVG path command.
 /// Ref: https://www.w3.org/TR/SVG2/paths.html
 inline
@@ -12791,7 +12833,7 @@ struct SvgValuesBuffer
 	}
 	void addValue( std::string elem )
 	{
-		_values.push_back( std::stod(elem) );
+		_values.push_back( getNumValue(elem) );
 	}
 };
 
@@ -12822,6 +12864,8 @@ parsePath( const char* s )
 	{
 		auto e = getNextElem( str, it );
 //		HOMOG2D_LOG( "parsing element -" << e << "- #=" << e.size() );
+		if( e.empty() )       // trailing separators
+			break;
 
 		if( e.size() == 1 && !isDigit(e[0]) ) // we have a command !
 		{
-- 
2.43.0


From 79fc8a6b9997c1884bb58f4bfac70f414ac817ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 49/91] fix: svg path import: closing a subpath did not bring
 the current point back to its start, a value after it aborted

---
 homog2d.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index e181c5a..f26193c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12811,6 +12811,8 @@ struct SvgValuesBuffer
 {
 	std::vector<double> _values;
 	Point2d             _previousPt;
+	Point2d             _startPt;           ///< first point of current subpath
+	bool                _isClosed = false;  ///< true if previous subpath has been closed
 
 	size_t size() const
 	{
@@ -12827,10 +12829,24 @@ struct SvgValuesBuffer
 			);
 		auto pt = generateNewPoint( mode, _previousPt, _values );
 		HOMOG2D_LOG( "new point added: " << pt );
+		if( out.empty() )
+		{
+			if( _isClosed && mode._command != 'M' ) // the new subpath starts at the same point
+				out.push_back( _startPt );          // as the one that was just closed
+			else
+				_startPt = pt;
+			_isClosed = false;
+		}
 		out.push_back( pt );
 		_previousPt = pt;
 		_values.clear();
 	}
+/// Closing a subpath brings back the current point to its starting point
+	void close()
+	{
+		_previousPt = _startPt;
+		_isClosed = true;
+	}
 	void addValue( std::string elem )
 	{
 		_values.push_back( getNumValue(elem) );
@@ -12877,6 +12893,8 @@ parsePath( const char* s )
 			if( !svgPathCommandIsAllowed(mode._command) )
 				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- not handled" );
 
+			if( mode._command == 'Z' )
+				values.close();
 			if( mode.isNewPolyline() && !vout[idx].empty() )
 			{
 				vout.push_back( std::vector<Point2d>() );
@@ -12887,6 +12905,8 @@ parsePath( const char* s )
 		else // not a command, but a value
 		{
 //			HOMOG2D_LOG( "process value, values size=" << values.size() );
+			if( mode._nbValues == 0 )
+				HOMOG2D_THROW_ERROR_1( "SVG path: unexpected value -" << e << "- after command " << mode._command );
 			if( values.size() == (size_t)mode._nbValues ) // already got enough values
 				values.storeValues( vout[idx], mode );
 			values.addValue( e );
-- 
2.43.0


From a275b517a8df9e2c90ad7735fa781d48fddf1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 50/91] fix: svg path import: all the subpaths had the
 open/closed state of the last one

---
 homog2d.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f26193c..80c0b41 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12860,13 +12860,16 @@ Input string example:
 m 261.68497,138.79393 2.57,3.15 -0.72,1.27 2.18,1.94 -0.7,4.93 1.88,0.9
 \endverbatim
 The return value holds as 'second' a bool value, will be true if closed polyline
+(the last one, if there are several of them).
+If \c closed is given, it will hold that information for each of the polylines.
 */
 inline
 auto
-parsePath( const char* s )
+parsePath( const char* s, std::vector<bool>* closed=nullptr )
 {
 	SvgPathCommand mode;
 	std::vector<std::vector<Point2d>> vout(1);
+	std::vector<bool> vclosed(1,false);
 	SvgValuesBuffer values;
 	std::string str(s);
 	size_t idx = 0;
@@ -12894,10 +12897,15 @@ parsePath( const char* s )
 				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- not handled" );
 
 			if( mode._command == 'Z' )
+			{
 				values.close();
+				if( !vout[idx].empty() )
+					vclosed[idx] = true;
+			}
 			if( mode.isNewPolyline() && !vout[idx].empty() )
 			{
 				vout.push_back( std::vector<Point2d>() );
+				vclosed.push_back( false );
 				idx++;
 				HOMOG2D_LOG( "NEW vector idx=" << idx );
 			}
@@ -12922,7 +12930,12 @@ parsePath( const char* s )
 		if( v.size() )
 			v = purgeSetDupes( v );
 	if( vout.back().empty() )
+	{
 		vout.pop_back();
+		vclosed.pop_back();
+	}
+	if( closed )
+		*closed = vclosed;
 
 	return std::make_pair(
 		vout,
@@ -13097,15 +13110,17 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto pts_str = svgp::getAttribString( "d", e );
 				try
 				{
-					auto parse_res = svgp::parsePath( pts_str );
+					std::vector<bool> closed;
+					auto parse_res = svgp::parsePath( pts_str, &closed );
 					const auto& vec_vec_pts = parse_res.first;  //
+					auto it_closed = closed.begin();
 					for( auto vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 //					for( const auto& vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 					{
 						if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 							vec_pts.pop_back();                  //  point, remove last point
 
-						if( parse_res.second == true )
+						if( *it_closed++ )
 							_vecVar.emplace_back( CPolylineD(vec_pts) );
 						else
 							_vecVar.emplace_back( OPolylineD(vec_pts) );
-- 
2.43.0


From c47168be2419a4079ac1b07447d036e060f71041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 51/91] fix: svg path import accepted commands without values

---
 homog2d.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 80c0b41..a7b4d92 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12873,6 +12873,7 @@ parsePath( const char* s, std::vector<bool>* closed=nullptr )
 	SvgValuesBuffer values;
 	std::string str(s);
 	size_t idx = 0;
+	bool needsValues = false;  // true if a command has been read but none of its values
 	HOMOG2D_LOG( "parsing string -" << str << "- #=" << str.size() );
 	if( str.size() == 0 )
 		HOMOG2D_THROW_ERROR_1( "SVG path string is empty" );
@@ -12888,6 +12889,8 @@ parsePath( const char* s, std::vector<bool>* closed=nullptr )
 
 		if( e.size() == 1 && !isDigit(e[0]) ) // we have a command !
 		{
+			if( needsValues )
+				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- has no values" );
 			if( values.size() != 0 )              // if we have some values stored,
 				values.storeValues( vout[idx], mode );  //  first process them and add new point
 
@@ -12896,6 +12899,7 @@ parsePath( const char* s, std::vector<bool>* closed=nullptr )
 			if( !svgPathCommandIsAllowed(mode._command) )
 				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- not handled" );
 
+			needsValues = ( mode._nbValues != 0 );
 			if( mode._command == 'Z' )
 			{
 				values.close();
@@ -12918,10 +12922,13 @@ parsePath( const char* s, std::vector<bool>* closed=nullptr )
 			if( values.size() == (size_t)mode._nbValues ) // already got enough values
 				values.storeValues( vout[idx], mode );
 			values.addValue( e );
+			needsValues = false;
 		}
 	}
 	while( it < str.cend() );
 
+	if( needsValues )
+		HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- has no values" );
 	if( values.size() )                  // process remaining values that have been stored
 		values.storeValues( vout[idx], mode );
 
-- 
2.43.0


From 3ef466fe751cececf835b2c966157f5535c02b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 52/91] fix: svg import failed with an ellipse having no
 transform attribute

---
 homog2d.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a7b4d92..c5f95f7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13148,9 +13148,13 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 				auto ell = EllipseD( x, y, rx, ry );
-
+				if( !e.Attribute( "transform" ) )
+				{
+					_vecVar.push_back( ell );
+					break;
+				}
+				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 				auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
 				_vecVar.push_back( H * ell );
 			}
-- 
2.43.0


From 77832eca50c1213fac40da87a07be66ea3659fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 53/91] fix: svg import: polygon points with other legal
 separators made the import fail

---
 homog2d.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index c5f95f7..fbdbb52 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12524,7 +12524,10 @@ getEllipseRotateAttr( const char* rot_str )
 }
 
 //------------------------------------------------------------------
-/// Svg import: Basic parsing of points that are in the format "10,20 30,40 50,60"
+std::string getNextElem( const std::string&, std::string::const_iterator& ); // forward declaration
+double      getNumValue( const std::string& );                               // forward declaration
+
+/// Svg import: Basic parsing of points that are in the format "10,20 30,40 50,60" (any legal separator can be used)
 /// \todo 20240326: this is used to import SVG polygon type. Maybe this can be replaced by
 /// the "path" import code?
 inline
@@ -12533,17 +12536,23 @@ parsePoints( const char* pts )
 {
 	std::vector<Point2d> out;
 	std::string s(pts);
-//	std::cout << "processing " << s << '\n';
-//	trimString( s );
-	auto v1 = tokenize( s, ' ' );
-	for( const auto& pt: v1 )
+	auto it = s.cbegin();
+	while( true )
 	{
-		auto v2 = tokenize( pt, ',' );
-		if( v2.size() != 2 )
+		auto ex = getNextElem( s, it );
+		if( ex.empty() )
+			break;
+		auto ey = getNextElem( s, it );
+		try
+		{
+			auto x = getNumValue( ex );
+			auto y = getNumValue( ey );
+			out.emplace_back( Point2d(x,y) );
+		}
+		catch( std::exception& )
+		{
 			throw "h2d:img::svg: invalid point format in importing svg element: " + s;
-		auto x = std::stod( v2[0] );
-		auto y = std::stod( v2[1] );
-		out.emplace_back( Point2d(x,y) );
+		}
 	}
 	return out;
 }
@@ -13041,6 +13050,9 @@ importSvgPoints( const tinyxml2::XMLElement& e )
 	auto pts_str = svgp::getAttribString( "points", e );
 	auto vec_pts = svgp::parsePoints( pts_str );
 
+	if( vec_pts.empty() )
+		return vec_pts;
+
 	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 		vec_pts.pop_back();                  //  point, remove last point
 
-- 
2.43.0


From 74b9bd42b573c0d44a1780f15e8a7c78c904ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 54/91] fix: svg import: polygons with repeated points made the
 import fail

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index fbdbb52..e063b90 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13053,6 +13053,7 @@ importSvgPoints( const tinyxml2::XMLElement& e )
 	if( vec_pts.empty() )
 		return vec_pts;
 
+	vec_pts = svgp::purgeSetDupes( vec_pts );
 	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 		vec_pts.pop_back();                  //  point, remove last point
 
-- 
2.43.0


From 2b10ff47da665c65ea55ed0878c25f3fba7fb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 55/91] fix: svg import: ellipses higher than wide were rotated
 by 90 degrees

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e063b90..d48ef05 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13161,7 +13161,7 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto ell = EllipseD( x, y, rx, ry );
+				auto ell = rx < ry ? EllipseD( x, y, ry, rx, M_PI/2. ) : EllipseD( x, y, rx, ry );
 				if( !e.Attribute( "transform" ) )
 				{
 					_vecVar.push_back( ell );
-- 
2.43.0


From c4a684368aa04d8c719fa2c0d58d9849d214726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 56/91] fix: TransformFunct kept a reference to a homography
 that may be a temporary

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d48ef05..36c0a0b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1056,7 +1056,7 @@ public:
 	}
 
 private:
-	const Homogr_<FPT>& _h;
+	const Homogr_<FPT> _h; ///< a copy, so that the functor can be built from a temporary
 };
 
 //------------------------------------------------------------------
-- 
2.43.0


From fcc4863cc481a8f46a510ddf1c42043d08e46fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 57/91] fix: streaming through rtp::Root read float and long
 double objects as double ones

---
 homog2d.hpp | 90 +++++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 54 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 36c0a0b..0efa9a5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12223,6 +12223,33 @@ SegVec<SV,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 //------------------------------------------------------------------
 #ifdef HOMOG2D_ENABLE_PRTP
 namespace rtp {
+
+namespace priv {
+
+/// Prints \c p if its actual type is \c T, returns false if not
+template<typename T>
+bool
+printIfType( std::ostream& f, const Root& p )
+{
+	auto ptr = dynamic_cast<const T*>( &p );
+	if( ptr )
+		f << *ptr;
+	return ptr != nullptr;
+}
+
+/// Prints \c p as a \c PRIM, whatever its underlying floating-point type
+template<template<typename> class PRIM>
+void
+printAs( std::ostream& f, const Root& p )
+{
+	if( !printIfType<PRIM<double>>( f, p ) )
+		if( !printIfType<PRIM<float>>( f, p ) )
+			if( !printIfType<PRIM<long double>>( f, p ) )
+				printIfType<PRIM<HOMOG2D_INUMTYPE>>( f, p );
+}
+
+} // namespace priv
+
 /// Stream operator for \c Root type
 /** \todo replace this by a call to a virtual function `print()`
 (that needs to be defined in all the child classes as:
@@ -12240,60 +12267,15 @@ operator << ( std::ostream& f, const Root& p )
 	f << "type="<< getString( p.type() ) << std::endl;
 	switch( p.type() )
 	{
-		case Type::Circle:
-		{
-			const Circle_<double>* p2 = static_cast<const Circle_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Ellipse:
-		{
-			const Ellipse_<double>* p2 = static_cast<const Ellipse_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::FRect:
-		{
-			const FRect_<double>* p2 = static_cast<const FRect_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Line2d:
-		{
-			const Line2d_<double>* p2 = static_cast<const Line2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Point2d:
-		{
-			const Point2d_<double>* p2 = static_cast<const Point2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Segment:
-		{
-			const Segment_<double>* p2 = static_cast<const Segment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OSegment:
-		{
-			const OSegment_<double>* p2 = static_cast<const OSegment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OPolyline:
-		{
-			const OPolyline_<double>* p2 = static_cast<const OPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::CPolyline:
-		{
-			const CPolyline_<double>* p2 = static_cast<const CPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
+		case Type::Circle: priv::printAs<Circle_>( f, p ); break;
+		case Type::Ellipse: priv::printAs<Ellipse_>( f, p ); break;
+		case Type::FRect: priv::printAs<FRect_>( f, p ); break;
+		case Type::Line2d: priv::printAs<Line2d_>( f, p ); break;
+		case Type::Point2d: priv::printAs<Point2d_>( f, p ); break;
+		case Type::Segment: priv::printAs<Segment_>( f, p ); break;
+		case Type::OSegment: priv::printAs<OSegment_>( f, p ); break;
+		case Type::OPolyline: priv::printAs<OPolyline_>( f, p ); break;
+		case Type::CPolyline: priv::printAs<CPolyline_>( f, p ); break;
 		default: assert(0);
 	}
 	return f;
-- 
2.43.0


From 7924f512a0bf05fc15efa3c052e2b9766d09e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 58/91] fix: setFontSize() aborted on an invalid size instead
 of throwing

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0efa9a5..df2d4f8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -626,7 +626,8 @@ public:
 /// Set font size for drawText()
 	DrawParams& setFontSize( int value /* pixels */ )
 	{
-		assert( value > 1 );
+		if( value < 2 )
+			HOMOG2D_THROW_ERROR_1( "invalid font size: " << value );
 		_dpValues._fontSize = value;
 		return *this;
 	}
-- 
2.43.0


From 44122395fe9dce5c507d232b6dd6b7478c8862ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 59/91] fix: angle labels of polylines ignored the drawing
 parameters of the call

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index df2d4f8..5c71bb3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12000,7 +12000,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<cv::Mat>& im, img::DrawParams dp ) const
 			auto seg2 = osegs[i+1];
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1], dp );
 		}
 		if( isClosed() )
 		{
@@ -12008,7 +12008,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<cv::Mat>& im, img::DrawParams dp ) const
 			auto seg2 = osegs.front();
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "final angle " << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[0] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[0], dp );
 		}
 	}
 }
@@ -12352,7 +12352,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )
 			auto seg2 = osegs[i+1];
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1], dp );
 		}
 	}
 
-- 
2.43.0


From aadeac96e9ba0a0f31269db665b6399da5a90404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 60/91] fix: svg drawing of a closed polyline did not show the
 angle at its first point

---
 homog2d.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5c71bb3..53b6721 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12354,6 +12354,11 @@ PolylineBase<PLT,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
 			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1], dp );
 		}
+		if( isClosed() )
+		{
+			auto angle = getAngle( osegs.back(), osegs.front() );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[0], dp );
+		}
 	}
 
 	if( dp._dpValues._showIndex || dp._dpValues._showPoints )
-- 
2.43.0


From 065aa6719a4a2929e458deb20a7b39c7c94ce5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 61/91] fix: clear() of a svg image with a grey level aborted

---
 homog2d.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 53b6721..296f8b9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -861,6 +861,13 @@ Image<SvgImage>::clear( uint8_t, uint8_t, uint8_t )
 	_realImg._svgString.str("");
 	_realImg._svgString.clear();
 }
+template <>
+inline
+void
+Image<SvgImage>::clear( uint8_t col )
+{
+	clear( col, col, col );
+}
 
 #ifdef HOMOG2D_USE_OPENCV
 template <>
-- 
2.43.0


From 43ad1f6cae007ff0920ff73e24a6ced694c11503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 62/91] fix: point or line was modified by set() when it throws
 on invalid values

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 296f8b9..781776f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3913,10 +3913,12 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 		HOMOG2D_CHECK_IS_NUMBER(T0);
 		HOMOG2D_CHECK_IS_NUMBER(T1);
 		HOMOG2D_CHECK_IS_NUMBER(T2);
-		_v[0] = v0;
-		_v[1] = v1;
-		_v[2] = v2;
-		p_normalizePL();
+		LPBase<LP,FPT> tmp;       // so that nothing is changed if the values are invalid
+		tmp._v[0] = v0;
+		tmp._v[1] = v1;
+		tmp._v[2] = v2;
+		tmp.p_normalizePL();
+		*this = tmp;
 	}
 
 /// Constructor of line from 4 values x1,y1,x2,y2
-- 
2.43.0


From 5c46af78f2d56e30a2d64dbddcc0c6f099377c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 63/91] fix: building a point or line from a vector not holding
 3 values was not refused

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 781776f..02a1285 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3978,6 +3978,10 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 	>
 	LPBase( const T& arr )
 	{
+#ifndef HOMOG2D_NOCHECKS
+		if( arr.size() != 3 )
+			HOMOG2D_THROW_ERROR_1( "invalid size, should be 3, value=" << arr.size() );
+#endif
 		_v[0] = static_cast<FPT>(arr[0]);
 		_v[1] = static_cast<FPT>(arr[1]);
 		_v[2] = static_cast<FPT>(arr[2]);
-- 
2.43.0


From 07332eb7bfa3e6d84708e71850541a0f5b7e0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 64/91] fix: Circle set(radius) did not check the radius

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 02a1285..05801aa 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3369,7 +3369,7 @@ Use of Sfinae so it can be selected only for arithmetic types
 	>
 	void set( T rad )
 	{
-		_radius = rad;
+		set( _center, rad );
 	}
 
 /// Set circle from center point and radius
-- 
2.43.0


From 4e56d67afa57d7440a2326dab6a0b87be02a03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 65/91] fix: Ellipse with a null or negative axis length was
 not refused

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 05801aa..dd92240 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2289,6 +2289,10 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER(T1);
 		HOMOG2D_CHECK_IS_NUMBER(T2);
 		HOMOG2D_CHECK_IS_NUMBER(T3);
+#ifndef HOMOG2D_NOCHECKS
+		if( major < thr::nullDistance() || minor < thr::nullDistance() )
+			HOMOG2D_THROW_ERROR_1( "invalid axis length values: " << std::scientific << major << " and " << minor );
+#endif
 		if( major<minor )
 			std::swap( major, minor );
 		p_init( x, y, major, minor, angle );
-- 
2.43.0


From adda8b175132cb15a4e277eabcc81fe37164f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 66/91] fix: buildFrom4Points() aborted on an invalid method
 value

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dd92240..4900390 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4833,7 +4833,8 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for source points, should be 4, value=" << vpt1.size() );
 	if( vpt2.size() != 4 )
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for dest points, should be 4, value=" << vpt2.size() );
-	assert( method == 0 || method == 1 );
+	if( method != 0 && method != 1 )
+		HOMOG2D_THROW_ERROR_1( "invalid method, should be 0 or 1, value=" << method );
 
 	for( const auto* v: { &vpt1, &vpt2 } )
 		for( size_t i=0; i<4; i++ )
-- 
2.43.0


From 996f4cd3a939ce18f32f89fe356522882c8aa214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 67/91] fix: drawing a line on a very small image aborted

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4900390..67c88cc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11747,8 +11747,8 @@ base::LPBase<LP,FPT>::impl_draw_LP(
 	const detail::BaseHelper<typename typ::IsLine>&
 ) const
 {
-	assert( im.rows() > 2 );
-	assert( im.cols() > 2 );
+	if( im.rows() < 3 || im.cols() < 3 )
+		HOMOG2D_THROW_ERROR_1( "image too small: width=" << im.cols() << " height=" << im.rows() );
 
 	Point2d_<FPT> pt1; // 0,0
 	Point2d_<FPT> pt2( im.cols()-1, im.rows()-1 );
-- 
2.43.0


From 2dc5df25d36fa1123cbf51c0fbb547767b5a48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 68/91] fix: areCollinear() failed with float points and far
 from the origin

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 67c88cc..563e1c2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3714,10 +3714,12 @@ areCollinear( const Point2d_<FPT>& pt1, const Point2d_<FPT>& pt2, const Point2d_
 
 	auto pt_arr = priv::getLargestDistancePoints( pt1, pt2, pt3 );
 
-	auto li = pt_arr[0] * pt_arr[1];
-	if( li.distTo( pt_arr[2] ) < thr::nullDistance() )
-		return true;
-	return false;
+// distance between third point and line, computed relatively to first point so it is as accurate far from the origin
+	auto dx1 = pt_arr[1].getX() - pt_arr[0].getX();
+	auto dy1 = pt_arr[1].getY() - pt_arr[0].getY();
+	auto dx2 = pt_arr[2].getX() - pt_arr[0].getX();
+	auto dy2 = pt_arr[2].getY() - pt_arr[0].getY();
+	return homog2d_abs( dx1 * dy2 - dx2 * dy1 ) / homog2d_sqrt( dx1*dx1 + dy1*dy1 ) < thr::nullDistance();
 }
 
 /*
-- 
2.43.0


From 31930ead6b85999963665e24c5ed419f4233c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:40 +0000
Subject: [PATCH 69/91] fix: build failure with HOMOG2D_NOWARNINGS

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 563e1c2..df7f387 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -152,7 +152,7 @@ See https://github.com/skramm/homog2d
 	if( err::printWarnings() == true ) \
 		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
 #else
-#define HOMOG2D_LOG_WARNING
+#define HOMOG2D_LOG_WARNING( a )
 #endif
 
 /*
-- 
2.43.0


From 3f44df2383effc4e7ec630d4a7d175ef6cdcb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:22 +0000
Subject: [PATCH 70/91] fix: converting an empty line/circle intersection to
 another numeric type raised an error

---
 homog2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index df7f387..f8c957d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2579,9 +2579,12 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_2,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			auto ppts = other.get();
-			_ptIntersect_1 = ppts.first;
-			_ptIntersect_2 = ppts.second;
+			if( other() )
+			{
+				auto ppts = other.get();
+				_ptIntersect_1 = ppts.first;
+				_ptIntersect_2 = ppts.second;
+			}
 		}
 		size_t size() const { return _doesIntersect?2:0; }
 
-- 
2.43.0


From 19e97fc83dfad2efb676a3aaee81549c6b9eb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 71/91] fix: getPoints() and getRotatedLine() refused points
 computed to be on the line

---
 homog2d.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f8c957d..c5044bd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3739,6 +3739,24 @@ Ellipse_<FPT>::Ellipse_( const Circle_<FPT>& cir )
 /// Holds private stuff
 namespace priv {
 
+/// Returns the distance below which point \c pt is considered as lying on line \c li:
+/// coordinates and line coefficients are only known up to the precision of their type
+template<typename FPT, typename FPT2>
+HOMOG2D_INUMTYPE
+onLineThreshold( const Line2d_<FPT>& li, const Point2d_<FPT2>& pt )
+{
+	const auto arr = li.get();
+	const HOMOG2D_INUMTYPE mag =
+		homog2d_abs( static_cast<HOMOG2D_INUMTYPE>(arr[0]) * pt.getX() )
+		+ homog2d_abs( static_cast<HOMOG2D_INUMTYPE>(arr[1]) * pt.getY() )
+		+ homog2d_abs( static_cast<HOMOG2D_INUMTYPE>(arr[2]) );
+	const auto eps = std::max(
+		static_cast<HOMOG2D_INUMTYPE>( std::numeric_limits<FPT>::epsilon() ),
+		static_cast<HOMOG2D_INUMTYPE>( std::numeric_limits<FPT2>::epsilon() )
+	);
+	return std::max( static_cast<HOMOG2D_INUMTYPE>( thr::nullDistance() ), 8 * eps * mag );
+}
+
 /// Helper function, factorized here for the two impl_getPoints_A() implementations
 template<typename FPT, typename FPT2,  typename FPT3>
 auto
@@ -8911,7 +8929,7 @@ LPBase<LP,FPT>::getPoints( const Point2d_<FPT2>& pt, FPT3 dist ) const
 	HOMOG2D_CHECK_IS_NUMBER(FPT3);
 
 #ifndef HOMOG2D_NOCHECKS
-	if( this->distTo( pt ) > thr::nullDistance() )
+	if( this->distTo( pt ) > priv::onLineThreshold( *this, pt ) )
 	{
 		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
 			<< " > null distance (" << thr::nullDistance() << ")\n";
@@ -8971,7 +8989,7 @@ LPBase<LP,FPT>::getRotatedLine( const Point2d_<FPT2>& pt, T theta ) const
 	static_assert( std::is_same_v<LP,typ::IsLine>, "Invalid: you cannot call getRotatedLine() on a point" );
 
 #ifndef HOMOG2D_NOCHECKS
-	if( this->distTo( pt ) > thr::nullDistance() )
+	if( this->distTo( pt ) > priv::onLineThreshold( *this, pt ) )
 	{
 		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
 			<< "> null distance (" << thr::nullDistance() << ")\n";
-- 
2.43.0


From 0b32ab7026079826b1b7312f2654cdd9cdcb5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 72/91] fix: getOffsetPoly() returned invalid polygons or
 raised an error when an edge vanishes

---
 homog2d.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c5044bd..e6ab6dd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6867,6 +6867,7 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 //	bool paraLines = false;
 
 	std::vector<Point2d_<FPT>> v_out;
+	std::vector<Point2d_<FPT>> v_src; // source points having an image in v_out (only used if going inside)
 	auto osegs = getOSegs();
 	auto oseg1 = osegs.at(current);
 	do
@@ -6896,6 +6897,7 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 			if( !params._angleSplit || getAngle(oseg1,oseg2)>0 || dist < 0 )
 			{
 				v_out.push_back( pt_int );  // add point intersection of the two lines
+				v_src.push_back( pt1 );
 			}
 			else
 			{
@@ -6921,6 +6923,23 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 	}
 	while( current<size() ); //&& !paraLines );
 
+	for( size_t i=0; i<v_out.size(); i++ )
+	{
+		const auto j = ( i+1==v_out.size() ? 0 : i+1 );
+		bool vanished = ( v_out[i] == v_out[j] );
+		if( dist < 0 && !vanished )    // edges get shorter: is it still oriented as the source one ?
+		{
+			auto dx = v_src[j].getX() - v_src[i].getX();
+			auto dy = v_src[j].getY() - v_src[i].getY();
+			vanished = ( v_out[j].getX() - v_out[i].getX() ) * dx + ( v_out[j].getY() - v_out[i].getY() ) * dy < 0;
+		}
+		if( vanished )
+		{
+			HOMOG2D_LOG_WARNING( "Failure, an edge vanishes for this distance, returning empty CPolyline" );
+			return PolylineBase<typ::IsClosed,FPT>();
+		}
+	}
+
 	return PolylineBase<typ::IsClosed,FPT>( v_out );
 }
 
-- 
2.43.0


From 23438e662f76b6cc25dca2fde205f1680ddaff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:05 +0000
Subject: [PATCH 73/91] fix: getBisectorLines() raised an error far from the
 origin

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e6ab6dd..2c1d34d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10087,7 +10087,7 @@ getBisectorLines( const base::PolylineBase<PLT,FPT>& pl )
 		{
 			OSegment_<HOMOG2D_INUMTYPE> seg2( pts[i+1], pts[i+2] );
 			auto angle = seg1.getAngle( seg2 );
-			out.emplace_back( seg1.getLine().getRotatedLine( pts[i+1], angle/2. ) );
+			out.emplace_back( seg1.getLine().getParallelLine( pts[i+1] ).getRotatedLine( pts[i+1], angle/2. ) );
 			seg1 = -seg2;
 		}
 	}
@@ -10100,7 +10100,7 @@ getBisectorLines( const base::PolylineBase<PLT,FPT>& pl )
 			auto next = ( i != pl.size()-1 ? i+1 : 0 );
 			OSegment_<HOMOG2D_INUMTYPE> seg2( pts[i], pts[next] );
 			auto angle = seg1.getAngle( seg2 );
-			out.emplace_back( seg1.getLine().getRotatedLine( pts[i], angle/2. ) );
+			out.emplace_back( seg1.getLine().getParallelLine( pts[i] ).getRotatedLine( pts[i], angle/2. ) );
 			seg1 = -seg2;
 		}
 	}
-- 
2.43.0


From 082551e8a546f8557f7ad64fea3580383e8c580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 74/91] fix: normalizing a nearly horizontal line changed its
 slope

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2c1d34d..4ff8bc1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8887,6 +8887,7 @@ LPBase<LP,FPT>::impl_normalize( const detail::BaseHelper<typename typ::IsLine>&
 	if( homog2d_abs(_v[0]) < thr::nullDenom() ) // then, change sign so that b>0
 		if( _v[1] < 0 )
 		{
+			const_cast<LPBase<LP,FPT>*>(this)->_v[0] = 0. - _v[0]; // might not be exactly 0
 			const_cast<LPBase<LP,FPT>*>(this)->_v[1] = - _v[1];
 			const_cast<LPBase<LP,FPT>*>(this)->_v[2] = - _v[2];
 		}
-- 
2.43.0


From fdfb794eb3749670a2496ab4a10583dd58c10e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 75/91] fix: getCvPtd() and getCvPtf() returned integer points

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4ff8bc1..6d5a37e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4488,8 +4488,8 @@ public:
 	}
 
 	cv::Point2i getCvPti() const { return impl_getPt<cv::Point2i>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
-- 
2.43.0


From edae967de6e847e7fdcdf64dbdbf4052ff079de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 76/91] fix: homography assigned from a cv::Mat was not
 normalized nor checked

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6d5a37e..0860703 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11753,7 +11753,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 #endif
 	size_t i=0;
 
-	auto& data = detail::Matrix_<FPT>::getRaw();
+	Hmatrix_ tmp;       // so that nothing is changed if the values are invalid
+	auto& data = tmp.getRaw();
 	switch( type )
 	{
 		case CV_64F:
@@ -11766,7 +11767,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 			break;
 		default: assert(0);
 	}
-	return *this;
+	tmp.normalize();
+	return ( *this = tmp );
 }
 #endif // HOMOG2D_USE_OPENCV
 
-- 
2.43.0


From 42af50ab0bdc1035b932ffb3de4cab3c889a0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 77/91] fix: polyline built from a boost polygon skipped the
 checks on its points

---
 homog2d.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0860703..bd1a452 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6313,6 +6313,8 @@ this relates to the actual fact that last point is equal to first point.
 	)
 	{
 		const auto& outer = bgpol.outer();
+		if( outer.empty() )
+			return;
 		bool isClosed = false;
 		auto ptf = outer.front();
 		auto ptb = outer.back();
@@ -6323,20 +6325,22 @@ this should work !!! (but doesn't...)
 		Point2d_<HOMOG2D_INUMTYPE> pt_front( outer.front() );
 		Point2d_<HOMOG2D_INUMTYPE> pt_back(  outer.back() );
 */
-		if( pt_front == pt_back ) // means it's closed
+		if( outer.size() > 1 && pt_front == pt_back ) // means it's closed
 			isClosed = true;
 
 		if( isClosed && std::is_same_v<PLT,typ::IsOpen> ) // cannot build an open polyline from a closed one
 			HOMOG2D_THROW_ERROR_1( "unable to convert a closed boost::polygon into an OPolyline" );
 
-		_plinevec.reserve( outer.size() - isClosed );
+		std::vector<Point2d_<FPT>> vpts;
+		vpts.reserve( outer.size() - isClosed );
 		for( auto it=outer.begin(); it!=outer.end()-isClosed; it++ )
 		{
 			const auto& bgpt = *it;
-			_plinevec.emplace_back(
+			vpts.emplace_back(
 				Point2d_<FPT>( boost::geometry::get<0>(bgpt), boost::geometry::get<1>(bgpt) )
 			);
 		}
+		set( vpts );
 	}
 #endif
 
-- 
2.43.0


From 9650230d76243f2f39757fb664cc0f59285ab75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 78/91] fix: documented OpenCV point conversions were missing
 (getCvPt(), line from two points)

---
 homog2d.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index bd1a452..e2b5f39 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4505,6 +4505,14 @@ public:
 			impl_init_1_Point<FPT>( p );
 		}
 	}
+
+/// Constructor: build a line from two OpenCv points
+	template<typename T1,typename T2>
+	LPBase( const cv::Point_<T1>& pt1, const cv::Point_<T2>& pt2 )
+		: LPBase( Point2d_<HOMOG2D_INUMTYPE>(pt1), Point2d_<HOMOG2D_INUMTYPE>(pt2) )
+	{
+		static_assert( std::is_same_v<LP,typ::IsLine>, "Invalid: you cannot build a point from two points" );
+	}
 #endif // HOMOG2D_USE_OPENCV
 
 //////////////////////////
@@ -4664,6 +4672,14 @@ getCvPti( const Point2d_<FPT>& pt )
 	return pt.getCvPti();
 }
 
+/// Free function to return an OpenCv point, of type \c CVPT
+template<typename CVPT,typename FPT>
+CVPT
+getCvPt( const Point2d_<FPT>& pt )
+{
+	return pt.template getPt<CVPT>();
+}
+
 #endif // HOMOG2D_USE_OPENCV
 
 
-- 
2.43.0


From 43f9abe2b5be4a944c3722fce28ada63ec600249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 79/91] fix: documented constructor from user point types was
 disabled

---
 homog2d.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e2b5f39..790cfe4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3960,20 +3960,15 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 		*this = Point2d_<HOMOG2D_INUMTYPE>(x1, y1) * Point2d_<HOMOG2D_INUMTYPE>(x2, y2);
 	}
 
-#if 0
-/// Constructor of Point/Line from random type holding x,y values, see manual, section
+/// Constructor of Point/Line from random type holding x,y values, see manual, section 7.1
 	template<
 		typename T,
-		typename std::enable_if<
-			! trait::IsContainer<T>::value,
-			T
-		>::type* = nullptr
+		typename = decltype( T::HOMOG2D_BIND_X ),
+		typename = decltype( T::HOMOG2D_BIND_Y )
 	>
-	LPBase( T val )
-	{
-		p_init_2( val.HOMOG2D_BIND_X, val.HOMOG2D_BIND_Y );
-	}
-#endif
+	LPBase( const T& val )
+		: LPBase( Point2d_<FPT>( val.HOMOG2D_BIND_X, val.HOMOG2D_BIND_Y ) )
+	{}
 
 /// Constructor from an array holding 3 values of same type (a direct copy can be done)
 	template<
-- 
2.43.0


From 3693f31ec042125f9f279acdc476b0e259f718a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:55 +0000
Subject: [PATCH 80/91] fix: a long double homography was not equal to its own
 copy

---
 homog2d.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 790cfe4..29a76a1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2019,10 +2019,7 @@ and if one differs more than the threshold, it will return false
 
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
+				if( homog2d_abs( data[i][j] - h.value(i,j) ) >= thr::nullDeter() )
 					return false;
 		return true;
 	}
-- 
2.43.0


From e96f18b144f6a9654fc3487d0dc2eafc0d818dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:38 +0000
Subject: [PATCH 81/91] fix: point in polygon was wrong when the reference
 segment is nearly parallel to an edge

---
 homog2d.hpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 29a76a1..3481a40 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2496,6 +2496,10 @@ template<typename FPT1,typename FPT2>
 HOMOG2D_INUMTYPE
 crossProductV( const base::SegVec<typ::IsOSeg,FPT1>&, const base::SegVec<typ::IsOSeg,FPT2>& );
 
+template<typename SV1,typename SV2,typename FPT1,typename FPT2>
+bool
+segmentsCross( const base::SegVec<SV1,FPT1>&, const base::SegVec<SV2,FPT2>& );
+
 class Inters_1 {};
 class Inters_2 {};
 
@@ -9200,6 +9204,33 @@ crossProductV(
 	return dx1 * dy2 - dy1 * dx2;
 }
 
+/// Returns true if the two segments cross each other, at a point that is not an end point of one of these.
+/**
+As opposed to the intersection of the two segments, there is no threshold here on the angle between these.
+*/
+template<typename SV1,typename SV2,typename FPT1,typename FPT2>
+bool
+segmentsCross( const base::SegVec<SV1,FPT1>& s1, const base::SegVec<SV2,FPT2>& s2 )
+{
+	auto side = []               // lambda: on which side of the segment is the point ?
+	( const auto& seg, const auto& pt ) -> int
+	{
+		auto ppts = seg.getPts();
+		HOMOG2D_INUMTYPE x0 = ppts.first.getX();
+		HOMOG2D_INUMTYPE y0 = ppts.first.getY();
+		HOMOG2D_INUMTYPE dx1 = static_cast<HOMOG2D_INUMTYPE>( ppts.second.getX() ) - x0;
+		HOMOG2D_INUMTYPE dy1 = static_cast<HOMOG2D_INUMTYPE>( ppts.second.getY() ) - y0;
+		HOMOG2D_INUMTYPE dx2 = static_cast<HOMOG2D_INUMTYPE>( pt.getX() ) - x0;
+		HOMOG2D_INUMTYPE dy2 = static_cast<HOMOG2D_INUMTYPE>( pt.getY() ) - y0;
+		HOMOG2D_INUMTYPE cp = dx1 * dy2 - dy1 * dx2;
+		return cp > 0. ? +1 : ( cp < 0. ? -1 : 0 );
+	};
+	auto ppts1 = s1.getPts();
+	auto ppts2 = s2.getPts();
+	return side( s1, ppts2.first ) * side( s1, ppts2.second ) < 0
+		&& side( s2, ppts1.first ) * side( s2, ppts1.second ) < 0;
+}
+
 } // namespace detail
 
 
@@ -9495,7 +9526,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 				size_t c = 0;
 				for( auto seg: poly.getSegs() )  // iterate on the polyline segments
 				{
-					if( seg.intersects(seg_ref)() )
+					if( detail::segmentsCross( seg, seg_ref ) )
 						c++;
 				}
 				return static_cast<bool>( c%2 );
-- 
2.43.0


From 3cb17cb2fb9939bd357091eaebfc172afdd7ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:34 +0000
Subject: [PATCH 82/91] fix: isSimple() missed edges crossing each other at a
 very small angle

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3481a40..3f56f4f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7621,7 +7621,7 @@ PolylineBase<PLT,FPT>::isSimple() const
 
 				auto lastone = i==0?nbs-1:nbs;
 				for( auto j=i+2; notDone && j<lastone; j++ )
-					if( getSegment(j).intersects(seg1)() )
+					if( detail::segmentsCross( getSegment(j), seg1 ) )
 					{
 						notDone = false;
 						hasIntersections = true;
-- 
2.43.0


From 14119a52d3ad8739e9691dffb2259def3db38302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:31 +0000
Subject: [PATCH 83/91] fix: a segment, polyline or rectangle crossing a
 polygon's edge at a very small angle was inside it

---
 homog2d.hpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3f56f4f..83760f0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2500,6 +2500,10 @@ template<typename SV1,typename SV2,typename FPT1,typename FPT2>
 bool
 segmentsCross( const base::SegVec<SV1,FPT1>&, const base::SegVec<SV2,FPT2>& );
 
+template<typename SV,typename PLT,typename FPT1,typename FPT2>
+bool
+segmentMeets( const base::SegVec<SV,FPT1>&, const base::PolylineBase<PLT,FPT2>& );
+
 class Inters_1 {};
 class Inters_2 {};
 
@@ -3066,7 +3070,7 @@ public:
 	bool isInside( const CPolyline_<FPT2>& poly ) const
 	{
 		for( const auto& seg: getSegs() )
-			if( seg.intersects(poly)() )
+			if( detail::segmentMeets( seg, poly ) )
 				return false;
 
 		for( const auto& pt: get4Pts() )
@@ -5269,10 +5273,7 @@ Requires both points inside AND no intersections
 		if( !p_bothPtsAreInside( cpoly ) )
 			return false;
 
-		for( auto poly_seg: cpoly.getSegs() )
-			if( poly_seg.intersects( *this )() )
-				return false;
-		return true;
+		return !detail::segmentMeets( *this, cpoly );
 	}
 ///@}
 
@@ -6792,8 +6793,9 @@ Sfinae should resolve ONLY for CPolyline
 		for( const auto& pt: getPts() )
 			if( !pt.isInside( cpol ) )
 				return false;
-		if( intersects(cpol)() )
-			return false;
+		for( const auto& seg: getSegs() )
+			if( detail::segmentMeets( seg, cpol ) )
+				return false;
 		return true;
 	}
 
@@ -9231,6 +9233,25 @@ segmentsCross( const base::SegVec<SV1,FPT1>& s1, const base::SegVec<SV2,FPT2>& s
 		&& side( s2, ppts1.first ) * side( s2, ppts1.second ) < 0;
 }
 
+/// Returns true if the segment crosses or touches the polyline, whatever the angle between these
+template<typename SV,typename PLT,typename FPT1,typename FPT2>
+bool
+segmentMeets( const base::SegVec<SV,FPT1>& seg, const base::PolylineBase<PLT,FPT2>& poly )
+{
+	for( const auto& poly_seg: poly.getSegs() )
+	{
+		auto ppts = poly_seg.getPts();
+		if(
+			poly_seg.intersects( seg )()
+			|| segmentsCross( poly_seg, seg )
+			|| seg.distTo( ppts.first )  < thr::nullDistance()
+			|| seg.distTo( ppts.second ) < thr::nullDistance()
+		)
+			return true;
+	}
+	return false;
+}
+
 } // namespace detail
 
 
-- 
2.43.0


From cb2e060e6ebac028a17feda0993e82dffba5009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 84/91] fix: segment/circle intersection gave wrong points with
 large coordinates

---
 homog2d.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 83760f0..e1663ae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8465,6 +8465,16 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 	const auto& p1 = p_pts.first;
 	const auto& p2 = p_pts.second;
 
+	auto dotProd = []                                               // lambda: dot product of vectors (a,b) and (c,d)
+	( const auto& a, const auto& b, const auto& c, const auto& d ) -> HOMOG2D_INUMTYPE
+	{
+		return
+			( static_cast<HOMOG2D_INUMTYPE>(b.getX()) - static_cast<HOMOG2D_INUMTYPE>(a.getX()) )
+			* ( static_cast<HOMOG2D_INUMTYPE>(d.getX()) - static_cast<HOMOG2D_INUMTYPE>(c.getX()) )
+			+ ( static_cast<HOMOG2D_INUMTYPE>(b.getY()) - static_cast<HOMOG2D_INUMTYPE>(a.getY()) )
+			* ( static_cast<HOMOG2D_INUMTYPE>(d.getY()) - static_cast<HOMOG2D_INUMTYPE>(c.getY()) );
+	};
+
 	if(                                                            // one inside, the other outside
 		( tag_ptS1 == PtTag::Inside  && tag_ptS2 == PtTag::Outside )
 		||
@@ -8473,10 +8483,8 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 	{
 		detail::IntersectM<FPT> out;
 
-		auto d1 = _ptS1.distTo( p1 );
-		auto d2 = _ptS2.distTo( p1 );
-		if( homog2d_abs( d1+d2-length() ) < thr::nullDistance() )
-			out.add( p1 );                          // points is inside
+		if( dotProd( p2, p1, _ptS1, _ptS2 ) * ( tag_ptS1 == PtTag::Inside ? 1 : -1 ) > 0 ) // the one towards the outside point
+			out.add( p1 );
 		else
 			out.add( p2 );
 		return out;
@@ -8485,9 +8493,8 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 	detail::IntersectM<FPT> out;
 	if( tag_ptS1 == PtTag::Outside && tag_ptS2 == PtTag::Outside ) // both outside
 	{
-		auto d1 = _ptS1.distTo( p1 );
-		auto d2 = _ptS2.distTo( p1 );
-		if( homog2d_abs( d1+d2-length() ) >= thr::nullDistance() )   // if sum of the two distances is higher than length
+		const auto& ptc = circle.center();
+		if( dotProd( _ptS1, ptc, _ptS1, _ptS2 ) <= 0 || dotProd( _ptS2, ptc, _ptS2, _ptS1 ) <= 0 ) // if center is not facing the segment
 			return detail::IntersectM<FPT>();
 
 		out.add( p1 );
-- 
2.43.0


From 0aecd9cf5d3dc6bac381492d5fa75b0c1f4fd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 85/91] fix: segments and lines crossing each other were missed
 with large coordinates

---
 homog2d.hpp | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e1663ae..009eeae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2498,7 +2498,7 @@ crossProductV( const base::SegVec<typ::IsOSeg,FPT1>&, const base::SegVec<typ::Is
 
 template<typename SV1,typename SV2,typename FPT1,typename FPT2>
 bool
-segmentsCross( const base::SegVec<SV1,FPT1>&, const base::SegVec<SV2,FPT2>& );
+segmentsCross( const base::SegVec<SV1,FPT1>&, const base::SegVec<SV2,FPT2>&, bool withEnds=false );
 
 template<typename SV,typename PLT,typename FPT1,typename FPT2>
 bool
@@ -8353,17 +8353,21 @@ SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 
 	auto ptInter = l1 * l2;   // intersection point
 
-	auto dA1 = ptA1.distTo( ptInter );
-	auto dA2 = ptA2.distTo( ptInter );
-	if( homog2d_abs(dA1+dA2 - length()) < thr::nullDistance() )
+	bool doesIntersect = detail::segmentsCross( *this, s2, true );
+	if( !doesIntersect )     // maybe one is almost touching the other
 	{
+		auto dA1 = ptA1.distTo( ptInter );
+		auto dA2 = ptA2.distTo( ptInter );
 		auto dB1 = ptB1.distTo( ptInter );
 		auto dB2 = ptB2.distTo( ptInter );
-		if( homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance() )
-			return detail::Intersect<detail::Inters_1,FPT>(
-				Point2d_<FPT>( ptInter.getX() + org.getX(), ptInter.getY() + org.getY() )
-			);
+		doesIntersect =
+			homog2d_abs(dA1+dA2 - length()) < thr::nullDistance()
+			&& homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance();
 	}
+	if( doesIntersect )
+		return detail::Intersect<detail::Inters_1,FPT>(
+			Point2d_<FPT>( ptInter.getX() + org.getX(), ptInter.getY() + org.getY() )
+		);
 	return detail::Intersect<detail::Inters_1,FPT>(); // no intersection
 }
 
@@ -8392,9 +8396,21 @@ SegVec<SV,FPT>::intersects( const Line2d_<FPT2>& li1 ) const
 	const auto& pt1 = getPts().first;
 	const auto& pt2 = getPts().second;
 
+	auto value = [&li1]( const auto& pt ) -> HOMOG2D_INUMTYPE  // lambda, sign is the side of the line
+	{
+		auto arr = li1.get();
+		return static_cast<HOMOG2D_INUMTYPE>(arr[0]) * pt.getX()
+			+ static_cast<HOMOG2D_INUMTYPE>(arr[1]) * pt.getY()
+			+ static_cast<HOMOG2D_INUMTYPE>(arr[2]);
+	};
+	auto v1 = value( pt1 );
+	auto v2 = value( pt2 );
 	auto d1 = pt1.distTo( pi );
 	auto d2 = pt2.distTo( pi );
-	if( homog2d_abs(d1+d2-length()) < thr::nullDistance() )
+	if(
+		( v1 < 0. && v2 > 0. ) || ( v1 > 0. && v2 < 0. )            // one on each side,
+		|| homog2d_abs(d1+d2-length()) < thr::nullDistance()        // or touching
+	)
  		out._doesIntersect = true;
 
 	return out;
@@ -9213,13 +9229,16 @@ crossProductV(
 	return dx1 * dy2 - dy1 * dx2;
 }
 
-/// Returns true if the two segments cross each other, at a point that is not an end point of one of these.
+/// Returns true if the two segments cross each other
 /**
-As opposed to the intersection of the two segments, there is no threshold here on the angle between these.
+- If \c withEnds is false, at a point that is not an end point of one of these.
+- If true, the segments must not be parallel.
+
+As opposed to the intersection of the two segments, there is no threshold here, neither on the angle nor on distances.
 */
 template<typename SV1,typename SV2,typename FPT1,typename FPT2>
 bool
-segmentsCross( const base::SegVec<SV1,FPT1>& s1, const base::SegVec<SV2,FPT2>& s2 )
+segmentsCross( const base::SegVec<SV1,FPT1>& s1, const base::SegVec<SV2,FPT2>& s2, bool withEnds )
 {
 	auto side = []               // lambda: on which side of the segment is the point ?
 	( const auto& seg, const auto& pt ) -> int
@@ -9236,8 +9255,11 @@ segmentsCross( const base::SegVec<SV1,FPT1>& s1, const base::SegVec<SV2,FPT2>& s
 	};
 	auto ppts1 = s1.getPts();
 	auto ppts2 = s2.getPts();
-	return side( s1, ppts2.first ) * side( s1, ppts2.second ) < 0
-		&& side( s2, ppts1.first ) * side( s2, ppts1.second ) < 0;
+	auto v1 = side( s1, ppts2.first ) * side( s1, ppts2.second );
+	auto v2 = side( s2, ppts1.first ) * side( s2, ppts1.second );
+	if( withEnds )
+		return v1 <= 0 && v2 <= 0;
+	return v1 < 0 && v2 < 0;
 }
 
 /// Returns true if the segment crosses or touches the polyline, whatever the angle between these
-- 
2.43.0


From 74fccfe365438cc621a34e5cd809ce5dee56c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 86/91] fix: a line built from two points far from the origin
 missed them

---
 homog2d.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 009eeae..89ee887 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9197,6 +9197,20 @@ crossProduct(
 	base::LPBase<Out,FPT1> res;
 	res._v[0] = static_cast<FPT1>( r1_b * r2_c  - r1_c * r2_b );
 	res._v[1] = static_cast<FPT1>( r1_c * r2_a  - r1_a * r2_c );
+	if constexpr( std::is_same_v<Out,typ::IsLine> )
+		if( r1_c != 0. || r2_c != 0. )       // (not two points at infinity)
+		{
+// The value r1_a*r2_b - r1_b*r2_a is the difference of two large numbers when points are far from the origin,
+// so build the line on the point closest to the origin
+			auto d1 = ( homog2d_abs( r1_a ) + homog2d_abs( r1_b ) ) * homog2d_abs( r2_c );
+			auto d2 = ( homog2d_abs( r2_a ) + homog2d_abs( r2_b ) ) * homog2d_abs( r1_c );
+			bool first = ( r2_c == 0. || ( r1_c != 0. && d1 <= d2 ) );
+			auto x = ( first ? r1_a / r1_c : r2_a / r2_c );
+			auto y = ( first ? r1_b / r1_c : r2_b / r2_c );
+			res._v[2] = static_cast<FPT1>( -( ( r1_b * r2_c - r1_c * r2_b ) * x + ( r1_c * r2_a - r1_a * r2_c ) * y ) );
+			return res;
+		}
+
 	res._v[2] = static_cast<FPT1>( r1_a * r2_b  - r1_b * r2_a );
 
 	return res;
-- 
2.43.0


From 9ac2cd9f70a81286391152f31277fb122b0c7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:46 +0000
Subject: [PATCH 87/91] fix: area and centroid of polygons far from the origin
 were inaccurate

---
 homog2d.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 89ee887..29d7531 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7724,13 +7724,17 @@ HOMOG2D_INUMTYPE
 PolylineBase<PLT,FPT>::p_ComputeSignedArea() const
 {
 	HOMOG2D_INUMTYPE area = 0.;
+	if( size() == 0 )
+		return area;
+	const HOMOG2D_INUMTYPE x0 = _plinevec[0].getX();   // coordinates are taken relatively to the first point,
+	const HOMOG2D_INUMTYPE y0 = _plinevec[0].getY();   // to keep precision for polygons far from the origin
 	for( size_t i=0; i<size(); i++ )
 	{
 		auto j = (i == size()-1 ? 0 : i+1);
 		auto pt1 = _plinevec[i];
 		auto pt2 = _plinevec[j];
-		area += static_cast<HOMOG2D_INUMTYPE>(pt1.getX()) * pt2.getY();
-		area -= static_cast<HOMOG2D_INUMTYPE>(pt1.getY()) * pt2.getX();
+		area += ( static_cast<HOMOG2D_INUMTYPE>(pt1.getX()) - x0 ) * ( pt2.getY() - y0 );
+		area -= ( static_cast<HOMOG2D_INUMTYPE>(pt1.getY()) - y0 ) * ( pt2.getX() - x0 );
 	}
 	return area / 2.;
 }
@@ -7753,15 +7757,17 @@ base::PolylineBase<PLT,FPT>::centroid() const
 	{
 		HOMOG2D_INUMTYPE cx = 0.;
 		HOMOG2D_INUMTYPE cy = 0.;
+		const HOMOG2D_INUMTYPE x0 = _plinevec[0].getX();   // see p_ComputeSignedArea()
+		const HOMOG2D_INUMTYPE y0 = _plinevec[0].getY();
 		for( size_t i=0; i<size(); i++ )
 		{
 			auto j = (i == size()-1 ? 0 : i+1);
 			const auto& pt1 = _plinevec[i];
 			const auto& pt2 = _plinevec[j];
-			auto x1 = pt1.getX();
-			auto x2 = pt2.getX();
-			auto y1 = pt1.getY();
-			auto y2 = pt2.getY();
+			auto x1 = pt1.getX() - x0;
+			auto x2 = pt2.getX() - x0;
+			auto y1 = pt1.getY() - y0;
+			auto y2 = pt2.getY() - y0;
 
 			auto prod = x1*y2 - x2*y1;
 			cx += (x1+x2) * prod;
@@ -7771,7 +7777,7 @@ base::PolylineBase<PLT,FPT>::centroid() const
 		cx /= (6. * signedArea);
 		cy /= (6. * signedArea);
 
-		auto c = Point2d_<HOMOG2D_INUMTYPE>( cx, cy );
+		auto c = Point2d_<HOMOG2D_INUMTYPE>( x0 + cx, y0 + cy );
 		_attribs._centroid.set( c );
 	}
 	return _attribs._centroid.value();
-- 
2.43.0


From d941874d74b6b65eaf6d5532f0b8e0db27db6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:52 +0000
Subject: [PATCH 88/91] fix: small ellipses, or ellipses transformed with a
 large scale, could not be used

---
 homog2d.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 29d7531..ac8968f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2426,6 +2426,14 @@ is indeed a valid ellipse
 	template<typename T>
 	detail::EllParams<T> p_computeParams() const;
 
+/// Returns the factor to apply to the thresholds on the matrix coefficients, that are of the order of the squared radii
+/// (and much less after an homography with a large scale factor, as the matrix is homogeneous)
+	HOMOG2D_INUMTYPE p_thresScale() const
+	{
+		const auto& m = detail::Matrix_<FPT>::_mdata;
+		return std::min( (HOMOG2D_INUMTYPE)1., (HOMOG2D_INUMTYPE)homog2d_abs( m[0][0] + m[1][1] ) );
+	}
+
 /// Called by all the constructors, fills the matrix.
 	void p_init( double x0, double y0, double a, double b, double theta=0. )
 	{
@@ -8696,9 +8704,10 @@ Ellipse_<FPT>::p_computeParams() const
 	detail::EllParams<T> par;  // theta already set to zero
 
 	auto denom = B*B - (HOMOG2D_INUMTYPE)4. * A * C;
+	auto scale = p_thresScale();
 
 #ifndef HOMOG2D_NOCHECKS
-	if( homog2d_abs(denom) < thr::nullDenom() )
+	if( homog2d_abs(denom) < thr::nullDenom() * scale * scale )
 		HOMOG2D_THROW_ERROR_1(
 			"unable to compute parameters, denom=" << std::scientific << std::setprecision(15) << denom
 		);
@@ -8717,7 +8726,7 @@ Ellipse_<FPT>::p_computeParams() const
 
 	par.a2 = par.a * par.a;
 	par.b2 = par.b * par.b;
-	if( homog2d_abs(B) < thr::nullDenom() )
+	if( homog2d_abs(B) < thr::nullDenom() * scale )
 	{
 		if( A > C )
 			par.theta = M_PI / 2.;
@@ -8747,6 +8756,12 @@ Ellipse_<FPT>::isCircle( HOMOG2D_INUMTYPE thres ) const
 	HOMOG2D_INUMTYPE A  = m[0][0];
 	HOMOG2D_INUMTYPE C  = m[1][1];
 	HOMOG2D_INUMTYPE B2 = m[0][1];
+
+// the matrix is homogeneous, and its coefficients are usually of the order of the squared radii
+	auto par = p_getParams<HOMOG2D_INUMTYPE>();
+	auto sqr = par.a2 + par.b2;
+	thres *= std::min( (HOMOG2D_INUMTYPE)1., sqr ) * homog2d_abs(A+C) / sqr;
+
 	if( homog2d_abs(A-C) < thres )
 		if( homog2d_abs(B2)*2. < thres )
 			return true;
-- 
2.43.0


From 3676bbdcddac96ca106e93ba2a1d458eb9b2283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:54 +0000
Subject: [PATCH 89/91] fix: an image built on an existing OpenCV matrix had a
 wrong size

---
 homog2d.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index ac8968f..6986f0e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -800,6 +800,12 @@ Image<cv::Mat>::Image( size_t width, size_t height )
 	p_setSize( width, height );
 }
 
+template <>
+inline
+Image<cv::Mat>::Image( cv::Mat& m )
+	: _realImg(m), _width(m.cols), _height(m.rows)
+{}
+
 template <>
 inline
 void
-- 
2.43.0


From ef2210c2a2ad6e27ed87d4776bf25ca1d268229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:48 +0000
Subject: [PATCH 90/91] fix: a point inside a polygon with large coordinates
 could be reported outside

---
 homog2d.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6986f0e..b26528a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9596,6 +9596,18 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 	auto segarr = bbox.getExtended().getSegs();
 	std::vector<Segment_<HOMOG2D_INUMTYPE>> seg_bb( segarr.begin(), segarr.end() );
 
+// a reference segment that gets too close to a point of the polyline is not used: far away from
+// the origin, "too close" must take into account the precision of the coordinates
+	const auto corners = bbox.getPts();
+	HOMOG2D_INUMTYPE extent = 1;
+	for( const auto& corner: { corners.first, corners.second } )
+		extent = std::max( {
+			extent,
+			static_cast<HOMOG2D_INUMTYPE>( homog2d_abs( corner.getX() ) ),
+			static_cast<HOMOG2D_INUMTYPE>( homog2d_abs( corner.getY() ) )
+		} );
+	const HOMOG2D_INUMTYPE minDist = thr::nullDistance() * extent;
+
 	int iter = 0;
 	do
 	{
@@ -9609,7 +9621,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 			for( size_t j=0; j<poly_pts.size() && !tooClose; j++  )   // make sure that every point of the polyline is not on the reference segment
 			{
 				const auto& poly_pt = poly_pts[j];
-				if( poly_pt.distTo(seg_ref) < thr::nullDistance() )
+				if( poly_pt.distTo(seg_ref) < minDist )
 					tooClose = true;
 			}
 			if( !tooClose )     // if no polyline points
-- 
2.43.0


From aed5990fa17d55c138506beaba5f63692d4418aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:09 +0000
Subject: [PATCH 91/91] fix: each source file had its own thresholds, a value
 set at run time was ignored elsewhere

---
 homog2d.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b26528a..276824f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1240,36 +1240,36 @@ void printVectorPairs( const std::vector<std::pair<T,T>>& v )
 /// Holds threshold values and api to access these
 namespace thr {
 
-static HOMOG2D_INUMTYPE& nullDistance()
+inline HOMOG2D_INUMTYPE& nullDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroDistance = HOMOG2D_THR_ZERO_DIST;
 	return s_zeroDistance;
 }
-static HOMOG2D_INUMTYPE& nullOrthogDistance()
+inline HOMOG2D_INUMTYPE& nullOrthogDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroOrthoDistance = HOMOG2D_THR_ZERO_ORTHO_DIST;
 	return s_zeroOrthoDistance;
 }
-static HOMOG2D_INUMTYPE& nullAngleValue()
+inline HOMOG2D_INUMTYPE& nullAngleValue()
 {
 	static HOMOG2D_INUMTYPE s_zeroAngleValue = HOMOG2D_THR_ZERO_ANGLE;
 	return s_zeroAngleValue;
 }
 
-static HOMOG2D_INUMTYPE& nullDenom()
+inline HOMOG2D_INUMTYPE& nullDenom()
 {
 	static HOMOG2D_INUMTYPE _zeroDenom = HOMOG2D_THR_ZERO_DENOM;
 	return _zeroDenom;
 }
 
-static HOMOG2D_INUMTYPE& nullDeter()
+inline HOMOG2D_INUMTYPE& nullDeter()
 {
 	static HOMOG2D_INUMTYPE _zeroDeter = HOMOG2D_THR_ZERO_DETER;
 	return _zeroDeter;
 }
 
 /// This one is used for the Welzl minimum enclosing circle
-static bool& doNotCheckRadius()
+inline bool& doNotCheckRadius()
 {
 	static bool _doNotCheckRadius = false;
 	return _doNotCheckRadius;
-- 
2.43.0

