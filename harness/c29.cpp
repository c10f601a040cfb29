// C29: refused operations throw std::runtime_error and leave everything as it was.
// Histories (valid ops)* invalid+ (valid op) on a world holding one object of every kind, compared with the same
// history without the invalid call.
#define HOMOG2D_USE_EIGEN
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
using namespace mc; using namespace h2d;

template<class T> struct World
{
	typedef Point2d_<T> P;
	double o;                                  // offset of the whole scene
	P p, q; Line2d_<T> l, lv; Segment_<T> s; OSegment_<T> os; Circle_<T> c; Ellipse_<T> e; FRect_<T> r; CPolyline_<T> cp, cx, c0; OPolyline_<T> op, o0; Homogr_<T> H, Hs; img::DrawParams dp; std::vector<P> vp;
	P pt( double x, double y ) const { return P( (T)(x+o), (T)(y+o) ); }
	World( double off ) : o(off), p(pt(1,2)), q(pt(3,1)), l(pt(0,0),pt(3,1)), lv(pt(4,0),pt(4,2)), s(pt(0,0),pt(4,0)), os(pt(1,1),pt(5,4)), c(pt(2,2),3), e(pt(1,1),4,2,0.5), r(pt(0,0),pt(4,3))
	{
		cp=CPolyline_<T>( std::vector<P>{ pt(4,3),pt(1,2),pt(0,0),pt(4,0) } );
		cx=CPolyline_<T>( std::vector<P>{ pt(0,0),pt(4,4),pt(4,0),pt(0,4) } );
		op=OPolyline_<T>( std::vector<P>{ pt(2,2),pt(2,0),pt(0,0) } );
		H.setScale(2,1); H.set(2,0,0.0001); H.set(0,2,1); H.set(1,0,0.5);
		for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) Hs.set(i,j,(i+1)*(j+1));      // of rank 1
		vp={ pt(0,0),pt(3,1),pt(4,4),pt(1,3) };
	}
	World( const World& )=default;
};
template<class A> void pts( std::ostringstream& f, const A& v ) { for( auto& x: v ) { auto a=x.get(); f<<'['<<a[0]<<' '<<a[1]<<' '<<a[2]<<']'; } }
template<class T> void hom( std::ostringstream& f, const Homogr_<T>& h ) { for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) f<<h.value(i,j)<<' '; f<<h.isNormalized(); }
inline void statics( std::ostringstream& f )
{
	f<<thr::nullDistance()<<' '<<thr::nullOrthogDistance()<<' '<<thr::nullAngleValue()<<' '<<thr::nullDenom()<<' '<<thr::nullDeter()<<' '<<thr::doNotCheckRadius()<<'|';
	img::Image<img::SvgImage> im( 100, 100 ); Segment( 10,10,50,60 ).draw( im, img::DrawParams() ); im.drawText( "t", Point2d(5,5), img::DrawParams() ); f<<im.getReal()._svgString.str();
}
template<class T> std::string dump( const World<T>& w )
{
	std::ostringstream f; f.precision( 20 );
	statics( f ); f<<'|'; pts( f, std::vector<Point2d_<T>>{w.p,w.q} );
	for( auto* l: {&w.l,&w.lv} ) { auto a=l->get(); f<<a[0]<<' '<<a[1]<<' '<<a[2]<<'|'; }
	auto g=w.s.getPts(); pts( f, std::vector<Point2d_<T>>{g.first,g.second} ); g=w.os.getPts(); pts( f, std::vector<Point2d_<T>>{g.first,g.second} );
	pts( f, std::vector<Point2d_<T>>{w.c.center()} ); f<<w.c.radius()<<'|'; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) f<<w.e.value(i,j)<<' ';
	g=w.r.getPts(); pts( f, std::vector<Point2d_<T>>{g.first,g.second} );
	for( auto* z: {&w.cp,&w.cx,&w.c0} ) { f<<'C'; pts( f, z->getPts() ); } for( auto* z: {&w.op,&w.o0} ) { f<<'O'; pts( f, z->getPts() ); }
	hom( f, w.H ); hom( f, w.Hs ); f<<'V'; pts( f, w.vp );
	img::Image<img::SvgImage> im( 100, 100 ); Segment( 10,10,50,60 ).draw( im, w.dp ); im.drawText( "t", Point2d(5,5), w.dp ); f<<im.getReal()._svgString.str();
	return f.str();
}
template<class T> struct Op { std::string name; std::function<void(World<T>&,std::ostringstream&)> f; };
template<class T> struct Bad { std::string name; std::function<void(World<T>&)> f; int want=1; };   // want: 1 must throw; 2: either a finite answer or a runtime_error

template<class T> std::vector<Op<T>> valid()
{
	typedef World<T> W; typedef std::ostringstream O; std::vector<Op<T>> v;
	#define OK(n,...) v.push_back({n,[]( W& w, O& f ){ (void)w; (void)f; __VA_ARGS__; }});
	OK( "p.set", w.p.set( 7, -2 ); f<<w.p )
	OK( "H*p", w.p=w.H*w.p; f<<w.p )
	OK( "H*l", w.l=w.H*w.l; f<<w.l )
	OK( "H*s,H*cp", w.s=w.H*w.s; w.cp=w.H*w.cp; f<<w.s<<w.cp )
	OK( "H.inverse", w.H.inverse(); f<<(w.H*w.p)<<(w.H*w.l) )
	OK( "H.transpose,set", w.H.transpose(); w.H.set(2,2,2); f<<(w.H*w.p) )
	OK( "Hs=H,Hs=old", auto old=w.Hs; w.Hs=w.H; w.Hs.addTranslation(T(1),T(2)); f<<(w.Hs*w.l); w.Hs=old )
	OK( "cp attributes", f<<w.cp.isSimple()<<w.cp.area()<<w.cp.length()<<w.cp.centroid()<<w.cp.isConvex() )
	OK( "cp==,normalize", CPolyline_<T> z( w.cp ); z.translate(0,0); f<<(z==w.cp)<<w.cp )
	OK( "cx attributes", f<<w.cx.isSimple()<<w.cx.area()<<w.cx.length()<<w.cx.isConvex() )
	OK( "op.translate,minimize", w.op.translate(1,1); w.op.minimize(); f<<w.op<<w.op.length() )
	OK( "cp.set", w.cp.set( std::vector<Point2d_<T>>{ w.pt(0,0),w.pt(0,5),w.pt(5,5) } ); f<<w.cp.area()<<w.cp.centroid() )
	OK( "c=MEC", w.c.set( w.vp ); f<<w.c )
	OK( "c.set", w.c.set( w.p, 2 ); w.c.set( T(1) ); f<<w.c<<w.c.isInside(w.r) )
	OK( "e.translate", w.e.translate( 1, 2 ); f<<w.e.getMajMin().first<<w.e.getBB() )
	OK( "r.set", w.r.set( w.pt(1,1), w.pt(7,9) ); f<<w.r.area()<<w.r.intersects( w.l )() )
	OK( "l,lv", f<<w.l*w.lv<<w.lv.getCoord( GivenCoord::Y, 1 ) )
	OK( "os", f<<w.os.split( 1 ).first<<w.os.getPointAt( 2 )<<(w.os=-w.os) )
	OK( "null radius refused", f<<thrown([&]{ Circle_<T> z( w.p, 0 ); f<<z; }) )
	OK( "hull,offset", f<<convexHull( w.vp )<<CPolyline_<T>(w.r).getOffsetPoly(1) )
	OK( "4 points", Homogr_<T> z; z.buildFrom4Points( w.vp, std::vector<Point2d_<T>>{ w.pt(0,0),w.pt(4,0),w.pt(4,4),w.pt(0,4) }, 0 ); f.precision(5); f<<z*w.vp[1] )
	OK( "thresholds", thr::nullDistance()=1e-9; f<<(w.p==w.q) )
	OK( "dp", w.dp.setColor(1,2,3).setThickness(2).setPointSize(3); w.dp.setDefault() )
	#undef OK
	return v;
}
template<class T> std::vector<Bad<T>> invalid()
{
	typedef World<T> W; typedef Point2d_<T> P; std::vector<Bad<T>> v;
	#define NO(n,...) v.push_back({n,[]( W& w ){ (void)w; __VA_ARGS__; }});
	// ----- points and lines
	NO( "line from equal points", Line2d_<T> z( w.p, w.p ) )
	NO( "l = p*p", w.l = w.p*w.p )
	NO( "line from the origin", Line2d_<T> z( P(0,0) ) )
	NO( "line x1==x2,y1==y2", Line2d_<T> z( 1, 2, 1, 2 ) )
	NO( "l = l*l", w.p = w.l*w.l )
	NO( "point from parallel lines", Point2d_<T> z( w.lv, w.lv.getParallelLine( w.pt(9,9) ) ) )
	NO( "point from parallel segments", auto z=w.s*w.s )
	NO( "p.set(0,0,0)", w.p.set( 0, 0, 0 ) )
	NO( "p(0,0,0)", Point2d_<T> z( 0, 0, 0 ) )
	NO( "l.set(0,0,1)", w.l.set( 0, 0, 1 ) )
	NO( "l.set(0,0,0)", w.l.set( 0, 0, 0 ) )
	NO( "l(0,0,5)", Line2d_<T> z( 0, 0, 5 ) )
	NO( "p(array 0,0,0)", std::array<T,3> a{{0,0,0}}; w.p=Point2d_<T>( a ) )
	NO( "l(array 0,0,1)", std::array<T,3> a{{0,0,1}}; w.l=Line2d_<T>( a ) )
	NO( "p(vector 0,0,0)", std::vector<T> a{0,0,0}; w.p=Point2d_<T>( a ) )
	NO( "p(vector of 0)", std::vector<T> a; w.p=Point2d_<T>( a ) )
	NO( "p(vector of 1)", std::vector<T> a(1,3); w.p=Point2d_<T>( a ) )
	NO( "p(vector of 2)", std::vector<T> a(2,3); w.p=Point2d_<T>( a ) )
	NO( "l(vector of 2)", std::vector<T> a(2,3); w.l=Line2d_<T>( a ) )
	NO( "lv.getCoord(X)", w.lv.getCoord( GivenCoord::X, 3 ) )
	NO( "lv.getPoint(X)", w.p=w.lv.getPoint( GivenCoord::X, 3 ) )
	NO( "lv.getPoints(X)", w.lv.getPoints( GivenCoord::X, 3, 1 ) )
	NO( "lv.getOrthogLine(X)", w.l=w.lv.getOrthogLine( GivenCoord::X, 3 ) )
	NO( "lv.getPoints(off)", w.lv.getPoints( w.pt(9,9), 1 ) )
	NO( "l.getRotatedLine(off)", w.l=w.lv.getRotatedLine( w.pt(9,9), 1. ) )
	NO( "getOrthogSegment(on)", w.lv.getOrthogSegment( w.pt(4,9) ) )
	NO( "l.length", w.l.length() )
	NO( "l.length free", length( w.l ) )
	NO( "getParallelDistance", getParallelDistance( w.lv, Line2d_<T>( w.pt(0,0), w.pt(5,1) ) ) )
	NO( "no intersection l,l", w.lv.intersects( w.lv ).get() )
	// ----- segments
	NO( "s(p,p)", Segment_<T> z( w.p, w.p ) )
	NO( "os(p,p)", OSegment_<T> z( w.p, w.p ) )
	NO( "s(4 equal)", Segment_<T> z( 1, 2, 1, 2 ) )
	NO( "s.set(p,p)", w.s.set( w.q, w.q ) )
	NO( "os.set(p,p)", w.os.set( w.q, w.q ) )
	NO( "s.set(4 equal)", w.s.set( 1, 2, 1, 2 ) )
	NO( "os.set(pair)", w.os.set( std::make_pair( w.q, w.q ) ) )
	NO( "s(pair)", w.s=Segment_<T>( std::make_pair( w.q, w.q ) ) )
	NO( "os.split(0)", w.os.split( 0 ) )
	NO( "os.split(-1)", w.os.split( -1 ) )
	NO( "os.split(length)", w.os.split( w.os.length() ) )
	NO( "os.split(9e9)", w.os.split( 9e9 ) )
	NO( "os.getPointAt(-1)", w.p=w.os.getPointAt( -1 ) )
	NO( "s.getParallelSegs(0)", w.s.getParallelSegs( 0 ) )
	NO( "os.getParallelSegs(-1)", w.os.getParallelSegs( -1 ) )
	NO( "no intersection s,s", Segment_<T>( w.pt(50,50), w.pt(51,50) ).intersects( Segment_<T>( w.pt(60,60), w.pt(61,65) ) ).get() )
	// ----- rectangles
	NO( "r(p,p)", FRect_<T> z( w.p, w.p ) )
	NO( "r common x", FRect_<T> z( w.pt(1,1), w.pt(1,5) ) )
	NO( "r common y", FRect_<T> z( w.pt(1,1), w.pt(5,1) ) )
	NO( "r.set common x", w.r.set( w.pt(1,1), w.pt(1,5) ) )
	NO( "r.set(4) common y", w.r.set( 1, 1, 5, 1 ) )
	NO( "r(4) common y", FRect_<T> z( 1, 1, 5, 1 ) )
	NO( "r(center,0,2)", FRect_<T> z( w.p, 0, 2 ) )
	NO( "r(center,2,0)", FRect_<T> z( w.p, 2, 0 ) )
	NO( "r(pair)", w.r=FRect_<T>( std::make_pair( w.p, w.p ) ) )
	NO( "no common area", w.r.intersectArea( FRect_<T>( w.pt(90,90), w.pt(91,92) ) ).get() )
	NO( "no common area &", (w.r & FRect_<T>( w.pt(90,90), w.pt(91,92) )).get() )
	NO( "inside flat", w.p.isInside( w.pt(1,1), w.pt(1,5) ) )
	NO( "c inside flat", w.c.isInside( w.pt(1,1), w.pt(5,1) ) )
	NO( "l flat", w.l.intersects( w.pt(1,1), w.pt(5,1) ) )
	// ----- circles
	for( double x: {0.,1e-11,-1e-11,-1.,-2.} )
	{
		auto tag=str(x);
		v.push_back({"c(p,"+tag+")",[x]( W& w ){ Circle_<T> z( w.p, x ); }});
		v.push_back({"c(x,y,"+tag+")",[x]( W& ){ Circle_<T> z( 1, 2, x ); }});
		v.push_back({"c("+tag+")",[x]( W& ){ Circle_<T> z( (T)x ); }});
		v.push_back({"c.set(p,"+tag+")",[x]( W& w ){ w.c.set( w.q, x ); }});
		v.push_back({"c.set(x,y,"+tag+")",[x]( W& w ){ w.c.set( 5., 6., x ); }});
		v.push_back({"c.set("+tag+")",[x]( W& w ){ w.c.set( x ); }});
		v.push_back({"e(p,"+tag+",1)",[x]( W& w ){ w.e=Ellipse_<T>( w.p, x, 1. ); }});
		v.push_back({"e(p,3,"+tag+")",[x]( W& w ){ w.e=Ellipse_<T>( w.p, 3., x, 0.4 ); }});
		v.push_back({"e(x,y,"+tag+","+tag+")",[x]( W& w ){ w.e=Ellipse_<T>( 1., 2., x, x ); }});
		v.push_back({"RCP("+tag+")",[x]( W& w ){ w.cp.set( x, 5 ); }});
		v.push_back({"RCP ctor("+tag+")",[x]( W& w ){ w.cp=CPolyline_<T>( x, 5 ); }});
	}
	NO( "c(p,p)", Circle_<T> z( w.p, w.p ) )
	NO( "c.set(p,p)", w.c.set( w.q, w.q ) )
	NO( "c.set collinear", w.c.set( w.pt(0,0), w.pt(1,1), w.pt(3,3) ) )
	NO( "c(collinear)", Circle_<T> z( w.pt(0,0), w.pt(1,0), w.pt(3,0) ) )
	NO( "c.set two equal of 3", w.c.set( w.p, w.p, w.q ) )
	NO( "c(vector 0)", Circle_<T> z( (std::vector<P>()) ) )
	NO( "c.set(vector 0)", w.c.set( std::vector<P>() ) )
	NO( "c.set(vector 1)", w.c.set( std::vector<P>(1,w.q) ) )
	NO( "c.set(list 1)", w.c.set( std::list<P>(1,w.q) ) )
	NO( "c.set(array 1)", std::array<P,1> a; w.c.set( a ) )
	NO( "c.set(2 equal)", w.c.set( std::vector<P>(2,w.q) ) )
	NO( "c.set(5 equal)", w.c.set( std::vector<P>(5,w.q) ) )
	NO( "getTanSegs same", getTanSegs( w.c, w.c ) )
	NO( "getTanSegs inside", getTanSegs( w.c, Circle_<T>( w.c.center(), 1 ) ) )
	NO( "no intersection c", w.c.intersects( Line2d_<T>( w.pt(500,500), w.pt(501,500) ) ).get() )
	NO( "no intersection c,c", w.c.intersects( Circle_<T>( w.pt(500,500), 1 ) ).get() ) v.back().want=2;
	// ----- polylines
	for( size_t i: {3u,4u,5u,1000000u} )
	{
		v.push_back({"op.getPoint("+str(i)+")",[i]( W& w ){ w.p=w.op.getPoint( i ); }});
		v.push_back({"op.getSegment("+str(i-1)+")",[i]( W& w ){ w.s=w.op.getSegment( i-1 ); }});
		v.push_back({"op.getOSegment("+str(i-1)+")",[i]( W& w ){ w.os=w.op.getOSegment( i-1 ); }});
		v.push_back({"cx.getPoint("+str(i+1)+")",[i]( W& w ){ w.p=w.cx.getPoint( i+1 ); }});
		v.push_back({"cx.getSegment("+str(i+1)+")",[i]( W& w ){ w.s=w.cx.getSegment( i+1 ); }});
		v.push_back({"cx.getOSegment("+str(i+1)+")",[i]( W& w ){ w.os=w.cx.getOSegment( i+1 ); }});
		v.push_back({"c0.getPoint("+str(i-3)+")",[i]( W& w ){ w.p=w.c0.getPoint( i-3 ); }});
		v.push_back({"o0.getSegment("+str(i-3)+")",[i]( W& w ){ w.s=w.o0.getSegment( i-3 ); }});
		v.push_back({"c0.getOSegment("+str(i-3)+")",[i]( W& w ){ w.os=w.c0.getOSegment( i-3 ); }});
	}
	NO( "c0.moveTo", w.c0.moveTo( w.p ) )
	NO( "o0.moveTo(x,y)", w.o0.moveTo( 1, 2 ) )
	NO( "cp.set(1 point)", w.cp.set( std::vector<P>(1,w.q) ) )
	NO( "op.set(list 1)", w.op.set( std::list<P>(1,w.q) ) )
	NO( "cp.set(a,a,b)", w.cp.set( std::vector<P>{w.p,w.p,w.q} ) )
	NO( "cp.set(a,b,b)", w.cp.set( std::vector<P>{w.p,w.q,w.q} ) )
	NO( "cp.set(a,b,c,c,d)", w.cp.set( std::vector<P>{w.p,w.q,w.pt(8,8),w.pt(8,8),w.pt(9,1)} ) )
	NO( "cp.set(a,b,a)", w.cp.set( std::vector<P>{w.p,w.q,w.p} ) )
	NO( "op.set(a,b,b)", w.op.set( std::vector<P>{w.p,w.q,w.q} ) )
	NO( "cp(a,a)", w.cp=CPolyline_<T>( std::vector<P>{w.p,w.p} ) )
	NO( "op(array a,a)", std::array<P,2> a{{w.p,w.p}}; w.op=OPolyline_<T>( a ) )
	NO( "cp(1 point)", w.cp=CPolyline_<T>( std::vector<P>{w.p} ) )
	for( int n: {2,1,0,-1,-5} )
	{
		v.push_back({"RCP n="+str(n),[n]( W& w ){ w.cp.set( 3., n ); }});
		v.push_back({"RCP ctor n="+str(n),[n]( W& w ){ w.cp=CPolyline_<T>( 3., n ); }});
	}
	NO( "parallelogram collinear", w.cp.setParallelogram( w.pt(0,0), w.pt(1,1), w.pt(3,3) ) )
	NO( "parallelogram equal", w.cp.setParallelogram( w.p, w.p, w.q ) )
	NO( "parallelogram equal 2", w.cp.setParallelogram( w.p, w.q, w.q ) )
	NO( "parallelogram equal 3", w.cp.setParallelogram( w.p, w.q, w.p ) )
	NO( "cx.centroid", w.p=w.cx.centroid() )
	NO( "op.centroid", w.p=w.op.centroid() )
	NO( "c0.centroid", w.p=w.c0.centroid() )
	NO( "centroid(cx)", centroid( w.cx ) )
	NO( "c0.getBB", w.c0.getBB() )
	NO( "o0.getBB", getBB( w.o0 ) )
	NO( "flat op.getBB", OPolyline_<T>( std::vector<P>{w.pt(1,1),w.pt(5,1),w.pt(7,1)} ).getBB() )
	NO( "flat cp.getBB", CPolyline_<T>( std::vector<P>{w.pt(1,1),w.pt(1,5),w.pt(1,7)} ).getBB() )
	NO( "c0 extremes", w.c0.getExtremePoint( CardDir::Top ) )
	NO( "o0 extremes", w.o0.getExtremePoint( CardDir::Left ) )
	NO( "getLmPoint(o0)", getLmPoint( w.o0 ) )
	NO( "getRmPoint(c0)", getRmPoint( w.c0 ) )
	NO( "getTmPoint(c0)", getTmPoint( w.c0 ) )
	NO( "getBmPoint(c0)", getBmPoint( w.c0 ) )
	NO( "getBisectorLines(2)", getBisectorLines( OPolyline_<T>( std::vector<P>{w.p,w.q} ) ) )
	NO( "getBisectorLines(0)", getBisectorLines( w.c0 ) )
	NO( "closest(0,.)", getClosestPoints( w.c0, w.cp ) )
	NO( "closest(.,0)", getClosestPoints( w.op, w.o0 ) )
	// ----- containers
	NO( "getTmPoint({})", getTmPoint( std::vector<P>() ) )
	NO( "getBmPoint({})", getBmPoint( std::list<P>() ) )
	NO( "getLmPoint({})", getLmPoint( std::vector<P>() ) )
	NO( "getRmPoint({})", getRmPoint( std::vector<P>() ) )
	NO( "getExtremePoint({})", getExtremePoint( CardDir::Bottom, std::vector<P>() ) )
	for( int n: {0,1} )
	{
		v.push_back({"findNearestPoint "+str(n),[n]( W& w ){ findNearestPoint( w.p, std::vector<P>(n,w.q) ); }});
		v.push_back({"findFarthestPoint "+str(n),[n]( W& w ){ findFarthestPoint( w.p, std::list<P>(n,w.q) ); }});
		v.push_back({"findNearestFarthestPoint "+str(n),[n]( W& w ){ findNearestFarthestPoint( w.p, std::vector<P>(n,w.q) ); }});
		v.push_back({"getBB points "+str(n),[n]( W& w ){ getBB( std::vector<P>(n,w.q) ); }});
	}
	NO( "getBB of circles {}", getBB( std::vector<Circle_<T>>() ) )
	NO( "getBB of segments {}", getBB( std::vector<Segment_<T>>() ) )
	NO( "getBB equal points", getBB( std::vector<P>(3,w.q) ) )
	NO( "getBB flat points", getBB( std::vector<P>{w.pt(1,1),w.pt(5,1)} ) )
	NO( "getBB flat segments", getBB( std::vector<Segment_<T>>{Segment_<T>(w.pt(1,1),w.pt(5,1)),Segment_<T>(w.pt(7,1),w.pt(9,1))} ) )
	NO( "getBB(p,p)", getBB( w.p, w.p ) )
	NO( "getBB(s,s) flat", getBB( Segment_<T>(w.pt(1,1),w.pt(5,1)), Segment_<T>(w.pt(7,1),w.pt(9,1)) ) )
	NO( "getBB(c0,c0)", getBB( w.c0, w.c0 ) )
	NO( "getBB(o0,r)", getBB( w.o0, w.r ) ) v.back().want=2;
	NO( "getBB(r,c0)", getBB( w.r, w.c0 ) ) v.back().want=2;
	for( int n: {0,1,2} ) v.push_back({"hull "+str(n),[n]( W& w ){ convexHull( std::vector<P>( w.vp.begin(), w.vp.begin()+n ) ); },2});
	v.push_back({"hull collinear",[]( W& w ){ convexHull( std::vector<P>{w.pt(0,0),w.pt(1,1),w.pt(5,5)} ); },2});
	v.push_back({"offset of crossing polygon",[]( W& w ){ w.cx.getOffsetPoly( 1 ); },2});
	v.push_back({"offset of empty polygon",[]( W& w ){ w.c0.getOffsetPoly( 1 ); },2});
	// ----- matrices
	for( auto rc: std::vector<std::array<size_t,2>>{{3,0},{0,3},{3,3},{(size_t)-1,0},{0,(size_t)-1},{100,2}} )
	{
		v.push_back({"H.set("+str(rc[0],',',rc[1])+")",[rc]( W& w ){ w.H.set( rc[0], rc[1], 5 ); }});
		v.push_back({"H.value("+str(rc[0],',',rc[1])+")",[rc]( W& w ){ w.H.value( rc[0], rc[1] ); }});
	}
	NO( "Hs.inverse", w.Hs.inverse() )
	NO( "Hs*l", w.l=w.Hs*w.l )
	NO( "H=0 inverse", Homogr_<T> z; z.set(2,2,0); z.set(1,1,0); w.H=z; w.H.inverse() )
	v.back().f=[]( W& w ){ Homogr_<T> z; z.set(2,2,0); z.set(1,1,0); z.inverse(); (void)w; };
	NO( "normalize null", Homogr_<T> z; z.set(2,2,0); z.normalize() )
	NO( "product null", Homogr_<T> z; z.set(2,2,0); w.H=z*Homogr_<T>() )
	NO( "inverse with null last", Homogr_<T> z; z.set(2,2,0); z.set(2,0,1); z.set(0,2,1); z.set(0,0,0); z.set(1,1,1); z.inverse() )
	for( size_t i: {0u,1u,2u,4u} )
	{
		v.push_back({"H(vector lines "+str(i)+")",[i]( W& w ){ std::vector<std::vector<T>> m( i, std::vector<T>{1,0,1} ); w.H=Homogr_<T>( m ); }});
		v.push_back({"H(vector cols "+str(i)+")",[i]( W& w ){ std::vector<std::vector<T>> m( 3, std::vector<T>{1,0,1} ); m[1].resize( i ); w.H=Homogr_<T>( m ); }});
	}
	NO( "H(vector) null last", std::vector<std::vector<T>> m( 3, std::vector<T>{1,0,0} ); w.H=Homogr_<T>( m ) )
	NO( "H(array) null last", std::array<std::array<T,3>,3> m; for( auto& a: m ) a={{1,1,0}}; w.H=Homogr_<T>( m ) )
	for( int n: {0,3,5} )
	{
		v.push_back({"4 points, src "+str(n),[n]( W& w ){ auto a=w.vp; a.resize(n,w.pt(9,7)); w.H.buildFrom4Points( a, w.vp, 0 ); }});
		v.push_back({"4 points, dst "+str(n),[n]( W& w ){ auto a=w.vp; a.resize(n,w.pt(9,7)); w.H.buildFrom4Points( w.vp, a, 0 ); }});
	}
	NO( "4 points collinear src", auto a=w.vp; a[1]=a[0]; w.H.buildFrom4Points( a, w.vp, 0 ) )
	NO( "4 points collinear dst", auto a=w.vp; a[2]=w.pt(6,2); w.H.buildFrom4Points( w.vp, a, 0 ) )
	for( int m: {2,-1,7} ) v.push_back({"4 points method "+str(m),[m]( W& w ){ w.H.buildFrom4Points( w.vp, w.vp, m ); }});
	NO( "4 points no OpenCV", w.H.buildFrom4Points( w.vp, w.vp, 1 ) )
	// ----- drawing
	NO( "genRandomColors(max<min)", img::genRandomColors( 3, 50, 20 ) )
	NO( "genRandomColors(max==min)", img::genRandomColors( 3, 50, 50 ) )
	NO( "setPointSize(4)", w.dp.setPointSize( 4 ) )
	NO( "setPointSize(0)", w.dp.setPointSize( 0 ) )
	NO( "setPointStyle(bad)", w.dp.setPointStyle( static_cast<img::PtStyle>(77) ) )
	for( int n: {1,0,-3} ) v.push_back({"setFontSize("+str(n)+")",[n]( W& w ){ w.dp.setFontSize( n ); }});
	NO( "write to nowhere", img::Image<img::SvgImage> im( 10, 10 ); im.write( "/nonexistent_dir_c29/a/b.svg" ) )
	for( int n: {0,1,2} )
	{
		v.push_back({"draw line in image "+str(n),[n]( W& w ){ img::Image<img::SvgImage> im( n, n ); w.l.draw( im, w.dp ); },2});
		v.push_back({"draw line in image 50x"+str(n),[n]( W& w ){ img::Image<img::SvgImage> im( 50, n ); w.l.draw( im, w.dp ); },2});
	}
	#undef NO
	return v;
}
inline void resetStatics() { thr::nullDistance()=HOMOG2D_THR_ZERO_DIST; thr::nullOrthogDistance()=HOMOG2D_THR_ZERO_ORTHO_DIST; thr::nullAngleValue()=HOMOG2D_THR_ZERO_ANGLE; thr::nullDenom()=HOMOG2D_THR_ZERO_DENOM; thr::nullDeter()=HOMOG2D_THR_ZERO_DETER; thr::doNotCheckRadius()=false; img::DrawParams::resetDefault(); }

template<class T> struct Exp
{
	std::vector<Op<T>> V=valid<T>(); std::vector<Bad<T>> B=invalid<T>();
	std::string name;
	std::string op( World<T>& w, const Op<T>& o )
	{
		std::ostringstream f; f.precision( 18 ); step();
		try { o.f( w, f ); } catch( const std::runtime_error& x ) { f<<"<runtime_error>"; }
		return f.str();
	}
	void hist( double off, const std::vector<int>& pre, const std::vector<int>& bad, int post )
	{
		run( [&]{
			std::vector<std::string> r0, r1;
			std::string d0, d1, e0, e1;
			resetStatics();
			{ World<T> w( off ); for( int i: pre ) r0.push_back( op( w, V[i] ) ); d0=dump( w ); if( post>=0 ) { r0.push_back( op( w, V[post] ) ); e0=dump( w ); } }
			resetStatics();
			World<T> w( off ); for( int i: pre ) r1.push_back( op( w, V[i] ) );
			for( int b: bad )
			{
				std::string what; int t;
				try { t=thrown( [&]{ B[b].f( w ); }, &what ); } catch( ... ) { t=3; }
				if( B[b].want==2 ) { check( t<2, "error", [&]{ return str( B[b].name,": exception of another type: ",what ); } ); continue; }
				if( !check( t==1, "error", [&]{ return str( B[b].name, t==0 ? ": accepted" : t==2 ? ": another exception: "+what : ": another exception" ); } ) ) { resetStatics(); return; }
				check( what.size()>5, "message", "no message" );
			}
			d1=dump( w );
			check( d0==d1, "state", [&]{ size_t i=0; while( i<d0.size() && i<d1.size() && d0[i]==d1[i] ) i++; return str( "changed by the refused call: ", d1.substr(i>20?i-20:0,80), " instead of ", d0.substr(i>20?i-20:0,80) ); } );
			if( post>=0 ) { r1.push_back( op( w, V[post] ) ); e1=dump( w ); }
			check( r0==r1, "later", [&]{ for( size_t i=0;i<r0.size();i++ ) if( r0[i]!=r1[i] ) return str( "result ",i,": ",r1[i]," instead of ",r0[i] ); return std::string(); } );
			check( e0==e1, "state after", [&]{ size_t i=0; while( i<e0.size() && i<e1.size() && e0[i]==e1[i] ) i++; return str( e1.substr(i>20?i-20:0,80), " instead of ", e0.substr(i>20?i-20:0,80) ); } );
			resetStatics();
			outcome( std::hash<std::string>()( d1+e1 ) );
		}, [&]{ std::string s=str( name," off ",off,":" ); for( int i: pre ) s+=" "+V[i].name+";"; for( int b: bad ) s+=" REFUSED "+B[b].name+";"; if( post>=0 ) s+=" "+V[post].name; return s; } );
	}
	void all( double off, bool deep )
	{
		int nv=V.size(), nb=B.size();
		for( int b=0;b<nb;b++ ) hist( off, {}, {b}, -1 );
#ifdef C29_SINGLE
		return;
#endif
		for( int b=0;b<nb;b++ ) { for( int z=-1;z<nv;z++ ) { hist( off, {}, {b}, z ); for( int a=0;a<nv;a++ ) hist( off, {a}, {b}, z ); } }
		for( int b=0;b<nb;b++ ) for( int c=0;c<nb;c++ ) hist( off, {}, {b,c}, (b+c)%nv );
		if( deep ) for( int b=0;b<nb;b++ ) for( int a=0;a<nv;a++ ) for( int a2=0;a2<nv;a2++ ) for( int z=0;z<nv;z++ ) hist( off, {a,a2}, {b}, z );
	}
};
template<class T> void go( const char* n )
{
	Exp<T> x; x.name=n;
	section( n );
	for( double off: {0.,100.} ) if( thorough() || off!=0 || sizeof(T)==8 ) x.all( off, thorough() && sizeof(T)==8 );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	go<double>( "double" ); go<float>( "float" ); go<long double>( "long double" );
	return finish();
}
