// C35: the probes, compiled in two source files: every answer must be the one that the thresholds now in force give
#include <string>
#include <vector>
#include <cmath>
#define HOMOG2D_THR_ZERO_ORTHO_DIST 1E-13     // the value given at build time
#include "homog2d.hpp"
#ifndef C35_PROBE
#define C35_PROBE
namespace c35 {
enum { D, O, A, N, T, K };                    // distance, orthogonal distance, angle, denominator, determinant; K: radius not checked
struct Th { double v[5]; bool noRad; };
struct Ans { const char* what; int thr; double gap; bool below; bool exempt; long errs; };   // below: the answer is the one for "gap under the threshold"
}
#endif
namespace {
template<class F> inline bool thr_( F&& f ) { try { f(); } catch( const std::runtime_error& ) { return true; } return false; }
// objects that live for the whole run
template<class F>
struct Old
{
	struct Pts { h2d::Point2d_<F> p,q,r; }; struct Lin { h2d::Line2d_<F> a,b,tilt,off,vert; };
	std::vector<double> gd{1e-11,1e-8,1e-4,0.1}, go{1e-10,1e-4,0.1}, ga{1e-9,1e-5,1e-2,0.5}, gn{1e-12,1e-7,1e-3,0.3}, gt{1e-16,1e-10,1e-3,0.5};
	std::vector<Pts> pts; std::vector<Lin> lin, linA, linN; std::vector<h2d::Segment_<F>> over; std::vector<h2d::Segment_<F>> segA; std::vector<h2d::Point2d_<F>> inf;
	h2d::Line2d_<F> base, baseC; h2d::Segment_<F> segBase; h2d::OSegment_<F> osegBase;
	Old() : base( h2d::Point2d_<F>(-3,0), h2d::Point2d_<F>(5,0) ), baseC( h2d::Point2d_<F>(-3,-3), h2d::Point2d_<F>(5,5) ), segBase( -2,0,2,0 ), osegBase( 2,0,-2,0 )
	{
		for( F g: gd )
		{
			pts.push_back( { {1,2}, {1+g,2}, {1,2-g} } );
			lin.push_back( { base, base, base, h2d::Line2d_<F>( h2d::Point2d_<F>(-3,g), h2d::Point2d_<F>(5,g) ), base } );
			over.emplace_back( 0.5,g,0.5,1. );
		}
		for( F g: ga )
		{
			linA.push_back( { base, base, h2d::Line2d_<F>( h2d::Point2d_<F>(0,0), h2d::Point2d_<F>(4*std::cos(g),4*std::sin(g)) ), base, base } );
			segA.emplace_back( -2*std::cos(g),-2*std::sin(g),2*std::cos(g),2*std::sin(g) );
		}
		for( F g: gn )
		{
			h2d::Line2d_<F> l( std::sqrt(1-g*g), g, F(0.5) ); linN.push_back( { l,l,l,l,l } );
			inf.push_back( h2d::Point2d_<F>( F(1), F(0.5), g ) );
		}
	}
};
template<class F>
inline std::vector<c35::Ans> probe( const Old<F>& o, bool noRad )
{
	using namespace h2d; using namespace c35;
	typedef Point2d_<F> P; typedef Line2d_<F> L;
	std::vector<Ans> R; long e0=0;
	auto put=[&]( const char* w, int t, double g, bool b, bool ex=false ){ R.push_back( {w,t,g,b,ex,(long)h2d::err::errorCount()-e0} ); e0=(long)h2d::err::errorCount(); };
	auto thrown=[&]( auto&& f ){ return thr_(f); };
	e0=(long)h2d::err::errorCount();
	for( size_t i=0;i<o.gd.size();i++ )
	{
		double g=o.gd[i]; auto& k=o.pts[i];
		put( "point==", D,g, k.p==k.q && k.q==k.p && !(k.p!=k.q) ); put( "point!=", D,g, !(k.p!=k.r) );
		put( "line from points", D,g, thrown([&]{ L l(k.p,k.q); }) ); put( "point*point", D,g, thrown([&]{ auto l=k.p*k.r; }) );
		put( "segment", D,g, thrown([&]{ Segment_<F> s(k.p,k.q); }) ); put( "oriented segment", D,g, thrown([&]{ OSegment_<F> s(k.r,k.p); }) );
		put( "segment set", D,g, thrown([&]{ Segment_<F> s; s.set(k.p,k.q); }) );
		put( "circle radius", D,g, thrown([&]{ Circle_<F> c( k.p, F(g) ); }), noRad ); put( "circle set", D,g, thrown([&]{ Circle_<F> c; c.set( F(g) ); }), noRad ); put( "circle 3 numbers", D,g, thrown([&]{ Circle_<F> c( F(1),F(2),F(g) ); }), noRad );
		put( "ellipse axis", D,g, thrown([&]{ Ellipse_<F> e( F(1),F(2),F(3),F(g) ); }) );
		const P on( F(0.75), F(g) );
		put( "points on line", D,g, !thrown([&]{ o.base.getPoints( on, 1. ); }) ); put( "rotated line", D,g, !thrown([&]{ o.base.getRotatedLine( on, 0.5 ); }) );
		put( "orthogonal segment", D,g, thrown([&]{ o.base.getOrthogSegment( on ); }) );
		put( "line==", D,g, o.base==o.lin[i].off );
		put( "segment/line", D,g*2, o.over[i].intersects(o.base)() ); put( "line/segment", D,g*2, o.base.intersects(o.over[i])() );
		put( "point on polygon edge", D,g, !P( F(0.3),F(g) ).isInside( CPolyline_<F>( std::vector<P>{{-2,0},{3,0},{2,3},{-1,4}} ) ) );
		put( "vertex on edge", D,g, !CPolyline_<F>( std::vector<P>{{-2,0},{3,0},{3,3},{F(0.5),F(g)},{-2,3}} ).isSimple() );
	}
	for( double g: o.go )
	{
		put( "rectangle", O,g, thrown([&]{ FRect_<F> r( 1,2,F(1+g),4 ); }) ); put( "rectangle from points", O,g, thrown([&]{ FRect_<F> r( P(1,2), P(-3,F(2-g)) ); }) );
		put( "rectangle set", O,g, thrown([&]{ FRect_<F> r; r.set( P(1,2), P(F(1-g),5) ); }) );
	}
	for( size_t i=0;i<o.ga.size();i++ )
	{
		double g=o.ga[i]; auto& k=o.linA[i];
		put( "parallel", A,g, k.a.isParallelTo(k.tilt) && k.tilt.isParallelTo(k.a) ); put( "areParallel", A,g, areParallel(k.tilt,k.a) );
		const bool denom = g<1.1*(double)thr::nullDenom() && g>=(double)thr::nullAngleValue();   // the third coordinate of the crossing point may be considered as null
		if( !denom ) { put( "line*line", A,g, thrown([&]{ auto p=k.a*k.tilt; }) ); put( "point from lines", A,g, thrown([&]{ P p(k.a,k.tilt); }) ); }
		put( "line/line", A,g, !k.a.intersects(k.tilt)() ); put( "line==", A,g, k.a==k.tilt );
		put( "segment parallel", A,g, o.segA[i].isParallelTo(o.segBase) && o.segBase.isParallelTo(k.tilt) && k.tilt.isParallelTo(o.segBase) );
		put( "segment crosses line", A,g, !o.segA[i].intersects(o.base)() ); put( "segments cross", A,g, !o.segA[i].intersects(o.segBase)() ); put( "oriented segments cross", A,g, !o.osegBase.intersects(o.segA[i])() );
		put( "minimize", A,g, [&]{ OPolyline_<F> pl( std::vector<P>{{-2,0},{0,0},{F(2*std::cos(g)),F(2*std::sin(g))}} ); pl.minimize(); return pl.size()==2; }() );
	}
	for( size_t i=0;i<o.gn.size();i++ )
	{
		double g=o.gn[i]; auto& l=o.linN[i].a;
		put( "line coordinate", N,g, thrown([&]{ l.getCoord( GivenCoord::X, 1. ); }) ); put( "line point", N,g, thrown([&]{ l.getPoint( GivenCoord::X, 1. ); }) );
		put( "point at infinity", N,g, o.inf[i].isInf() );
		put( "matrix normalization", N,g, thrown([&]{ Homogr_<F> h( std::vector<std::vector<F>>{{1,0,3},{0,1,2},{0,1,F(g)}} ); }) );
	}
	for( double g: o.gt )
	{
		put( "inverse", T,g, thrown([&]{ Homogr_<F> h; h.setScale( F(g), 1 ); h.inverse(); }) );
	}
	return R;
}
} // namespace
