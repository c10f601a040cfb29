// Answers of every query on a scene, for a pair of numeric types. Included once per build configuration, with the
// library's namespace renamed (-D style) so that all configurations live in one program.
#include "homog2d.hpp"
#include "c30_api.hpp"
#include <list>
#include <tuple>
namespace {
using namespace h2d;
typedef std::vector<c30::Ans> Out;
inline void N( Out& o, const char* n, double v ) { o.push_back({n,v,false}); }
inline void E( Out& o, const char* n, double v ) { o.push_back({n,v,true}); }
template<class P> void pt( Out& o, const char* n, const P& p ) { N(o,n,(double)p.getX()); N(o,n,(double)p.getY()); }
/// a set of points, whatever the order
template<class V> void mom( Out& o, const char* n, const V& v )
{
	double s[6]={0,0,0,0,0,0};
	for( auto& p: v ) { double x=p.getX(), y=p.getY(); s[0]+=x; s[1]+=y; s[2]+=x*x; s[3]+=x*y; s[4]+=y*y; s[5]+=x*x*y; }
	E(o,n,v.size()); for( double z: s ) N(o,n,z);
}
template<class P> void pair2( Out& o, const char* n, const P& p ) { typedef std::decay_t<decltype(p.first)> A; mom( o, n, std::vector<A>{ p.first, p.second } ); }
template<class S> void seg( Out& o, const char* n, const S& s ) { auto p=s.getPts(); pt(o,n,p.first); pt(o,n,p.second); }
template<class S> void segs( Out& o, const char* n, const S& a, const S& b ) { auto p=a.getPts(), q=b.getPts(); typedef std::decay_t<decltype(p.first)> A; mom( o, n, std::vector<A>{ p.first,p.second,q.first,q.second } ); }
/// a line, whatever its sign
template<class L> void line( Out& o, const char* n, const L& l ) { auto v=l.get(); double a=v[0],b=v[1],c=v[2]; N(o,n,a*a); N(o,n,a*b); N(o,n,b*b); N(o,n,a*c); N(o,n,b*c); }
template<class R> void rect( Out& o, const char* n, const R& r ) { auto p=r.getPts(); pt(o,n,p.first); pt(o,n,p.second); }
template<class C> void circ( Out& o, const char* n, const C& c ) { pt(o,n,c.center()); N(o,n,(double)c.radius()); }
template<class E_> void ell( Out& o, const char* n, const E_& e ) { pt(o,n,e.getCenter()); auto m=e.getMajMin(); N(o,n,m.first); N(o,n,m.second); N(o,n,e.area()); N(o,n,std::cos(2.*(double)e.angle())*(m.first-m.second)); N(o,n,std::sin(2.*(double)e.angle())*(m.first-m.second)); }
template<class P> void pol( Out& o, const char* n, const P& p ) { E(o,n,p.size()); for( auto& q: p.getPts() ) pt(o,n,q); }
template<class F> void guard( Out& o, const char* n, F&& f ) { Out z; try { f( z ); } catch( const std::runtime_error& ) { E( o, n, -777 ); return; } o.insert( o.end(), z.begin(), z.end() ); }
#define G(n,...) guard( o, n, [&]( Out& o ){ const char* nm=n; (void)nm; __VA_ARGS__ } )

template<class T1,class T2> struct W
{
	typedef Point2d_<T1> P; typedef Point2d_<T2> Q;
	P a,c,e; Q b,d;
	c30::Scene s;
	W( const c30::Scene& z ) : a(z.p[0][0],z.p[0][1]), c(z.p[2][0],z.p[2][1]), e(z.p[4][0],z.p[4][1]), b(z.p[1][0],z.p[1][1]), d(z.p[3][0],z.p[3][1]), s(z) {}
	template<class T> Point2d_<T> X( int i ) const { return Point2d_<T>( (T)s.p[i][0], (T)s.p[i][1] ); }
};
/// points, lines
template<class T1,class T2> void g0( const W<T1,T2>& w, Out& o )
{
	auto a=w.a; auto b=w.b;
	Line2d_<T1> l( w.template X<T1>(0), w.template X<T1>(1) ); Line2d_<T2> m( w.template X<T2>(2), w.template X<T2>(3) );
	Segment_<T1> s( w.template X<T1>(0), w.template X<T1>(1) ); Segment_<T2> t( w.template X<T2>(2), w.template X<T2>(3) ); OSegment_<T1> os( w.template X<T1>(0), w.template X<T1>(1) ); OSegment_<T2> ot( w.template X<T2>(2), w.template X<T2>(3) );
	G( "p.distTo(p)", N(o,nm,a.distTo(b)); N(o,nm,dist(a,b)); N(o,nm,w.d.distTo(l)); N(o,nm,w.e.distTo(t)); N(o,nm,t.distTo(a)); N(o,nm,l.distTo(w.d)); );
	G( "p==p", E(o,nm,a==b); E(o,nm,w.a==Point2d_<T2>(w.a)); E(o,nm,Point2d_<T1>(w.b)==w.b); E(o,nm,(a<b)); E(o,nm,(b<a)); );
	G( "p*p", line(o,nm,w.a*w.c); line(o,nm,w.d*w.b); line(o,nm,Line2d_<T1>(w.template X<T1>(3),w.template X<T1>(4))); line(o,nm,Line2d_<T1>(w.s.p[0][0],w.s.p[0][1],w.s.p[4][0],w.s.p[4][1])); );
	G( "l*l", pt(o,nm,l*m); pt(o,nm,m*l); pt(o,nm,s*t); pt(o,nm,Point2d_<T1>( l, Line2d_<T1>(m) )); );
	G( "isParallelTo", E(o,nm,l.isParallelTo(m)); E(o,nm,s.isParallelTo(Segment_<T1>(t))); E(o,nm,l.isParallelTo(t)); E(o,nm,t.isParallelTo(m)); );
	G( "getAngle", N(o,nm,l.getAngle(m)); N(o,nm,getAngle(m,l)); N(o,nm,s.getAngle(Segment_<T1>(t))); N(o,nm,getAngle(l,t)); N(o,nm,std::cos((double)os.getAngle(ot))); N(o,nm,std::sin((double)os.getAngle(ot))); );
	G( "getCoord", N(o,nm,l.getCoord(GivenCoord::X,7)); N(o,nm,l.getCoord(GivenCoord::Y,-3.5)); pt(o,nm,m.getPoint(GivenCoord::X,2)); pair2(o,nm,l.getPoints(GivenCoord::X,2,3)); pair2(o,nm,l.getPoints(w.a,2)); );
	G( "getOrthogLine", line(o,nm,l.getOrthogLine(GivenCoord::Y,2)); line(o,nm,l.getOrthogLine(w.d)); line(o,nm,m.getParallelLine(w.a)); auto pl=l.getParallelLines(3); double d1=w.e.distTo(pl.first), d2=w.e.distTo(pl.second); N(o,nm,d1+d2); N(o,nm,d1*d2); N(o,nm,getParallelDistance(pl.first,pl.second)); );
	G( "getOrthogSegment", seg(o,nm,l.getOrthogSegment(w.e)); seg(o,nm,Line2d_<T1>(m).getOrthogSegment(w.a)); );
	G( "getRotatedLine", Line2d_<T1> z( GivenCoord::X==GivenCoord::X ? LineDir::H : LineDir::V, 2 ); line(o,nm,z.getRotatedLine(Point2d_<T2>(3,2),0.25)); );
	G( "line conv", Line2d_<T2> z(l); line(o,nm,z); E(o,nm,(int)z.type()); Line2d_<T1> y(m); line(o,nm,y); z=Line2d_<T2>(y); line(o,nm,z); );
	G( "point conv", Point2d_<T2> z(w.a); pt(o,nm,z); E(o,nm,(int)z.type()); E(o,nm,(int)z.dtype()>=0); Point2d_<T1> y(w.b); pt(o,nm,y); z=w.c; pt(o,nm,z); y.set(w.d.getX(),w.d.getY()); pt(o,nm,y); y.translate(w.s.r1,1); pt(o,nm,y); z.moveTo(w.a); pt(o,nm,z); );
	G( "length", N(o,nm,s.length()); N(o,nm,length(t)); N(o,nm,os.length()); seg(o,nm,s); seg(o,nm,os); pt(o,nm,s.getCenter()); pt(o,nm,getCenter(t)); line(o,nm,s.getBisector()); line(o,nm,s.getLine()); );
	G( "seg conv", Segment_<T2> z(s); seg(o,nm,z); E(o,nm,(int)z.type()); Segment_<T1> y(os); seg(o,nm,y); OSegment_<T2> v(os); seg(o,nm,v); E(o,nm,(int)v.type()); seg(o,nm,-v); E(o,nm,s==Segment_<T1>(t)); E(o,nm,Segment_<T2>(s)==Segment_<T2>(w.b,w.template X<T2>(0))); );
	G( "segDist", int k=9; N(o,nm,w.e.distTo(s)); N(o,nm,t.distTo(w.e,&k)); E(o,nm,k); N(o,nm,s.distTo(w.d,&k)); E(o,nm,k); );
	G( "split", auto z=os.split( 0.5 ); seg(o,nm,z.first); seg(o,nm,z.second); auto y=ot.split(); seg(o,nm,y.first); pt(o,nm,ot.getPointAt(1.5)); auto v=os.getVector(); N(o,nm,v.first); N(o,nm,v.second); );
	G( "side", E(o,nm,(int)os.getPointSide(w.d)); E(o,nm,(int)ot.getPointSide(w.e)); );
	G( "parallel segs", auto z=os.getParallelSegs(2); seg(o,nm,z.first); seg(o,nm,z.second); auto y=t.getParallelSegs(1.5); segs(o,nm,y.first,y.second); );
	G( "extended", auto z=os.getExtended(); seg(o,nm,z); auto y=t.getExtended(); seg(o,nm,y); auto sp=os.getOrthogSegs(); (void)sp; for( auto& q: sp ) seg(o,nm,q); );
	G( "seg-line", auto z=s.intersects(m); E(o,nm,z()); E(o,nm,z.size()); if( z() ) pt(o,nm,z.get()); auto y=l.intersects(t); E(o,nm,y()); if( y() ) pt(o,nm,y.get()); auto x=l.intersects(m); E(o,nm,x()); if( x() ) pt(o,nm,x.get()); );
	G( "seg-seg", auto z=s.intersects(t); E(o,nm,z()); if( z() ) pt(o,nm,z.get()); auto y=os.intersects(t); E(o,nm,y()); auto x=ot.intersects(s); E(o,nm,x()); );
	G( "collinear", E(o,nm,areCollinear(w.a,w.c,w.e)); E(o,nm,areCollinear(Point2d_<T2>(w.a),w.b,w.d)); );
}
/// circles
template<class T1,class T2> void g1( const W<T1,T2>& w, Out& o )
{
	Circle_<T1> c( w.b, w.s.r1 ); Circle_<T2> k( w.a, w.s.r2 ); Circle_<T2> big( w.e, 20 );
	Line2d_<T2> m( w.template X<T2>(2), w.template X<T2>(3) ); Segment_<T2> t( w.template X<T2>(2), w.template X<T2>(3) ); FRect_<T2> r( w.template X<T2>(2), w.template X<T2>(3) ); CPolyline_<T2> p( std::vector<Point2d_<T2>>{ w.template X<T2>(2), w.template X<T2>(3), w.template X<T2>(4) } );
	G( "circle", circ(o,nm,c); circ(o,nm,k); N(o,nm,c.area()); N(o,nm,length(k)); rect(o,nm,c.getBB()); Circle_<T2> z(c); circ(o,nm,z); E(o,nm,(int)z.type()); Circle_<T1> y; y=Circle_<T1>(k); circ(o,nm,y); y.set(w.d); circ(o,nm,y); y.set(2.5); circ(o,nm,y); y.set(w.d,3); circ(o,nm,y); y.translate(1,w.s.r2); circ(o,nm,y); y.moveTo(w.b); circ(o,nm,y); );
	G( "c==c", E(o,nm,c==Circle_<T1>(k)); E(o,nm,c==Circle_<T1>(Circle_<T2>(c))); );
	G( "c from pts", circ(o,nm,Circle_<T1>(w.a,w.b)); circ(o,nm,Circle_<T2>(w.a,w.c)); circ(o,nm,Circle_<T1>(w.a,w.b,w.c)); circ(o,nm,Circle_<T2>(w.d,w.b,w.e)); );
	G( "MEC", circ(o,nm,Circle_<T1>( std::vector<Point2d_<T2>>{ w.template X<T2>(0), w.template X<T2>(1), w.template X<T2>(2) } )); );
	G( "c inside", E(o,nm,c.isInside(k)); E(o,nm,k.isInside(big)); E(o,nm,c.isInside(big)); E(o,nm,c.isInside(r)); E(o,nm,k.isInside(p)); E(o,nm,r.isInside(c)); E(o,nm,p.isInside(c)); E(o,nm,p.isInside(big)); E(o,nm,t.isInside(c)); E(o,nm,w.d.isInside(c)); E(o,nm,w.c.isInside(k)); );
	G( "c-line", auto z=c.intersects(m); E(o,nm,z()); E(o,nm,z.size()); if( z() ) pair2(o,nm,z.get()); auto y=m.intersects(c); E(o,nm,y()); );
	G( "c-seg", auto z=c.intersects(t); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=t.intersects(c); E(o,nm,y.size()); );
	G( "c-c", auto z=c.intersects(k); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=k.intersects(c); E(o,nm,y.size()); );
	G( "c-rect", auto z=c.intersects(r); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=r.intersects(c); E(o,nm,y.size()); );
	G( "c-poly", auto z=c.intersects(p); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=p.intersects(c); E(o,nm,y.size()); );
	G( "tangents", auto z=getTanSegs(c,k); segs(o,nm,z.first,z.second); );
	G( "joins", seg(o,nm,getSegment(c,k)); line(o,nm,getLine(c,k)); pt(o,nm,center(c)); N(o,nm,radius(k)); );
	G( "c BB", rect(o,nm,getBB(c,k)); rect(o,nm,getBB(c,r)); rect(o,nm,getBB(p,c)); rect(o,nm,getBB(k,t)); );
}
/// rectangles
template<class T1,class T2> void g2( const W<T1,T2>& w, Out& o )
{
	FRect_<T1> r( w.template X<T1>(0), w.template X<T1>(1) ); FRect_<T2> q( w.template X<T2>(2), w.template X<T2>(3) );
	Line2d_<T2> m( w.template X<T2>(2), w.template X<T2>(3) ); Segment_<T2> t( w.template X<T2>(2), w.template X<T2>(3) ); CPolyline_<T2> p( std::vector<Point2d_<T2>>{ w.template X<T2>(2), w.template X<T2>(3), w.template X<T2>(4) } );
	G( "rect", rect(o,nm,r); rect(o,nm,q); N(o,nm,r.area()); N(o,nm,length(q)); N(o,nm,r.width()); N(o,nm,height(q)); pt(o,nm,r.getCenter()); rect(o,nm,r.getBB()); rect(o,nm,r.getExtended()); FRect_<T2> z(r); rect(o,nm,z); E(o,nm,(int)z.type()); FRect_<T1> y; y=FRect_<T1>(q); rect(o,nm,y); y.translate(1,0.5); rect(o,nm,y); y.moveTo(w.b); rect(o,nm,y); y.set(w.b,w.template X<T2>(3)); rect(o,nm,y); );
	G( "rect ctor", rect(o,nm,FRect_<T1>(w.b,2,3)); rect(o,nm,FRect_<T1>(1,2,5.5,7)); E(o,nm,r==FRect_<T1>(q)); E(o,nm,FRect_<T2>(r)==FRect_<T2>(w.b,w.template X<T2>(0))); );
	G( "rect rot", auto z=r; z.rotate(Rotate::CW); rect(o,nm,z); z.rotate(Rotate::CCW,w.b); rect(o,nm,z); );
	G( "rect pts", for( auto& z: r.get4Pts() ) pt(o,nm,z); auto g=r.getSegs(); for( auto& z: g ) seg(o,nm,z); circ(o,nm,r.getBoundingCircle()); circ(o,nm,getInscribedCircle(q)); auto dg=r.getDiagonals(); segs(o,nm,dg.first,dg.second); );
	G( "rect inside", E(o,nm,r.isInside(q)); E(o,nm,q.isInside(r)); E(o,nm,w.d.isInside(r)); E(o,nm,w.e.isInside(q)); E(o,nm,t.isInside(r)); E(o,nm,p.isInside(r)); E(o,nm,r.isInside(p)); E(o,nm,w.e.isInside(w.a,w.c)); );
	G( "rect-line", auto z=r.intersects(m); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=m.intersects(r); E(o,nm,y.size()); );
	G( "rect-seg", auto z=r.intersects(t); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=t.intersects(r); E(o,nm,y.size()); );
	G( "rect-rect", auto z=r.intersects(q); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=q.intersects(r); E(o,nm,y.size()); );
	G( "rect-poly", auto z=r.intersects(p); E(o,nm,z.size()); if( z() ) mom(o,nm,z.get()); auto y=p.intersects(r); E(o,nm,y.size()); );
	G( "rect area", auto z=r.intersectArea(q); E(o,nm,z()); if( z() ) rect(o,nm,z.get()); auto y=q&r; E(o,nm,y()); N(o,nm,IoU(r,q)); );
	G( "rect union", auto z=r.unionArea(q); pol(o,nm,z); E(o,nm,(q|r).size()); );
	G( "rect BB", rect(o,nm,getBB(r,q)); rect(o,nm,getBB(t,r)); rect(o,nm,getBB(r,p)); );
}
/// polylines
template<class T1,class T2> void g3( const W<T1,T2>& w, Out& o )
{
	auto mk=[&]( auto tag, std::initializer_list<int> l ){ typedef decltype(tag) T; std::vector<Point2d_<T>> v; for( int i: l ) v.push_back( w.template X<T>(i) ); return v; };
	CPolyline_<T1> p( mk(T1(),{0,1,2,3}) ); CPolyline_<T2> q( mk(T2(),{1,4,2}) ); OPolyline_<T1> u( mk(T1(),{3,0,4,2}) ); OPolyline_<T2> v( mk(T2(),{1,4,0}) );
	Line2d_<T2> m( Point2d_<T2>( -3, w.s.p[2][1]+0.5 ), Point2d_<T2>( 11, w.s.p[2][1]+0.25 ) ), m2( LineDir::V, w.s.p[0][0]-0.25 );
	G( "poly", N(o,nm,p.area()); N(o,nm,p.length()); N(o,nm,u.length()); E(o,nm,p.isSimple()); E(o,nm,q.isConvex()); E(o,nm,p.isConvex()); E(o,nm,u.isSimple()); E(o,nm,p.nbSegs()); E(o,nm,u.size()); );
	G( "centroid p", pt(o,nm,p.centroid()); ); G( "centroid q", pt(o,nm,q.centroid()); );
	G( "poly BB", rect(o,nm,p.getBB()); rect(o,nm,getBB(v)); rect(o,nm,getBB(p,q)); rect(o,nm,getBB(u,q)); rect(o,nm,getBB(v,p)); );
	G( "poly conv", CPolyline_<T2> z(p); E(o,nm,(int)z.type()); mom(o,nm,z.getPts()); E(o,nm,z==p); OPolyline_<T2> y(u); E(o,nm,(int)y.type()); mom(o,nm,y.getPts()); E(o,nm,y==u); CPolyline_<T1> x; x=CPolyline_<T1>(q); E(o,nm,x==q); E(o,nm,p==q); E(o,nm,p!=q); CPolyline_<T2> g(u); E(o,nm,(int)g.type()); E(o,nm,g.size()); );
	G( "poly set", CPolyline_<T1> z; z.set( mk(T2(),{4,3,2,1}) ); mom(o,nm,z.getPts()); z.translate(1,w.s.r1); mom(o,nm,z.getPts()); z.moveTo(w.b); mom(o,nm,z.getPts()); z.rotate(Rotate::CW,w.d); mom(o,nm,z.getPts()); z.minimize(); E(o,nm,z.size()); z.set( FRect_<T2>( w.b, w.d ) ); mom(o,nm,z.getPts()); z.setParallelogram(w.a,w.b,w.c); mom(o,nm,z.getPts()); );
	G( "RCP", CPolyline_<T1> z; auto y=z.set( w.s.r2, 5 ); N(o,nm,y.first); N(o,nm,y.second); mom(o,nm,z.getPts()); );
	G( "poly segs", for( size_t i=0;i<p.nbSegs();i++ ) { N(o,nm,p.getSegment(i).length()); pt(o,nm,p.getPoint(i)); seg(o,nm,p.getOSegment(i)); } E(o,nm,u.getSegs().size()); E(o,nm,p.getOSegs().size()); );
	G( "extremes", pt(o,nm,getTmPoint(p)); pt(o,nm,getLmPoint(q)); pt(o,nm,getBmPoint(u)); pt(o,nm,getRmPoint(v)); pt(o,nm,p.getExtremePoint(CardDir::Left)); );
	G( "poly-line", auto z=p.intersects(m); mom(o,nm,z.get()); auto y=m.intersects(p); E(o,nm,y.size()); auto x=u.intersects(m2); mom(o,nm,x.get()); );
	G( "hull", auto z=convexHull( p ); pol(o,nm,z); auto y=convexHull( std::list<Point2d_<T1>>{ w.template X<T1>(0), w.template X<T1>(1), w.template X<T1>(2), w.template X<T1>(3), w.template X<T1>(4) } ); pol(o,nm,y); pol(o,nm,convexHull(v)); );
	G( "offset", auto z=q.getOffsetPoly( 0.5 ); mom(o,nm,z.getPts()); auto y=CPolyline_<T1>( FRect_<T1>( w.template X<T1>(0), w.template X<T1>(1) ) ).getOffsetPoly( 1 ); mom(o,nm,y.getPts()); );
	G( "bisectors", auto z=getBisectorLines( q ); for( auto& l: z ) line(o,nm,l); );
	G( "closest", auto z=getClosestPoints( CPolyline_<T1>( mk(T1(),{0,1}) ), CPolyline_<T2>( mk(T2(),{2,3}) ) ); N(o,nm,z.getMinDist()); );
	G( "poly inside", E(o,nm,q.isInside(FRect_<T1>(-9,-9,19,19))); E(o,nm,u.isInside(Circle_<T2>(2,2,30))); E(o,nm,w.e.isInside(CPolyline_<T1>( mk(T1(),{0,1,2}) ))); E(o,nm,w.d.isInside(CPolyline_<T1>( mk(T1(),{0,1,2}) ))); E(o,nm,Point2d_<T1>(w.d).isInside(q)); );
	G( "nearest", auto k=mk(T2(),{0,1,2,3}); auto l=mk(T1(),{0,1,2,3}); double dn=w.e.distTo(l[findNearestPoint(w.e,l)]), df=w.e.distTo(l[findFarthestPoint(w.e,l)]); N(o,nm,dn); N(o,nm,df); auto z=findNearestFarthestPoint(w.e,l); N(o,nm,w.e.distTo(l[z.first])); N(o,nm,w.e.distTo(l[z.second])); );
}
template<class T1,class T2> void g3b( const W<T1,T2>& w, Out& o )
{
	auto mk=[&]( auto tag, std::initializer_list<int> l ){ typedef decltype(tag) T; std::vector<Point2d_<T>> v; for( int i: l ) v.push_back( w.template X<T>(i) ); return v; };
	// the vertices of the one are not on the other
	CPolyline_<T1> p( mk(T1(),{0,1,2}) ); OPolyline_<T2> v( mk(T2(),{3,4}) );
	G( "poly-poly", auto z=p.intersects(v); mom(o,nm,z.get()); auto y=v.intersects(p); E(o,nm,y.size()); );
	G( "poly-seg", Segment_<T2> t( w.template X<T2>(3), w.template X<T2>(4) ); auto z=p.intersects(t); mom(o,nm,z.get()); auto y=t.intersects(p); E(o,nm,y.size()); );
	G( "poly-poly inside", E(o,nm,v.isInside(p)); CPolyline_<T2> big( FRect_<T2>( -50,-50,60,60 ) ); E(o,nm,p.isInside(big)); E(o,nm,big.isInside(p)); );
	G( "getPtsInside", std::vector<Point2d_<T2>> z=mk(T2(),{3,4}); auto y=getPtsInside( z, p ); mom(o,nm,y); );
	G( "getBB cont", rect(o,nm,getBB( mk(T1(),{0,1,2,3}) )); rect(o,nm,getBB( std::vector<Circle_<T2>>{ Circle_<T2>( w.b, 2 ), Circle_<T2>( w.d, 1 ) } )); rect(o,nm,getBB( std::list<Segment_<T1>>{ Segment_<T1>( w.template X<T1>(0), w.template X<T1>(1) ) } )); );
}
/// homographies and ellipses
template<class T1,class T2> void g4( const W<T1,T2>& w, Out& o )
{
	Homogr_<T1> H; H.setScale( 2, 0.5 ); H.addTranslation( T1(w.s.p[0][0]), T1(w.s.p[0][1]) ); H.set( 2,0, 0.0625 ); H.set( 0,1, 0.25 );
	auto mk=[&]( auto tag, std::initializer_list<int> l ){ typedef decltype(tag) T; std::vector<Point2d_<T>> v; for( int i: l ) v.push_back( w.template X<T>(i) ); return v; };
	CPolyline_<T2> p( mk(T2(),{0,1,2,3}) );
	G( "H*p", pt(o,nm,H*w.b); pt(o,nm,H*w.d); auto z=H*mk(T2(),{0,1}); for( auto& q: z ) pt(o,nm,q); pt(o,nm,H*(H*w.a)); );
	G( "H*l", line(o,nm,H*Line2d_<T2>( w.b, w.d )); line(o,nm,H*Line2d_<T1>( w.a, w.c )); );
	G( "H*s", seg(o,nm,H*Segment_<T2>( w.b, w.d )); seg(o,nm,H*OSegment_<T2>( w.b, w.d )); );
	G( "H*poly", mom(o,nm,(H*p).getPts()); mom(o,nm,(H*OPolyline_<T2>( mk(T2(),{0,1,2}) )).getPts()); mom(o,nm,(H*FRect_<T2>( w.b, w.d )).getPts()); );
	G( "H*c", Homogr_<T1> K; K.setScale( 2, 0.5 ).addRotation( 0.25 ).addTranslation( T1(1), T1(2) ); ell(o,nm,K*Circle_<T2>( w.b, w.s.r1 )); ell(o,nm,K*Ellipse_<T2>( w.b, 4, 2, 0.5 )); );
	G( "H inv", auto K=H; K.inverse(); for( int i=0;i<9;i++ ) N(o,nm,K.value(i/3,i%3)); auto I=K*H; for( int i=0;i<9;i++ ) N(o,nm,I.value(i/3,i%3)); K.transpose(); K.normalize(); N(o,nm,K.value(0,1)); N(o,nm,H.determ()); E(o,nm,K==H); );
	G( "H ops", Homogr_<T1> K( w.s.p[1][0], w.s.p[1][1] ); K.addRotation( 0.5 ).addScale( 3 ).addTranslation( T1(1), T1(2) ); for( int i=0;i<9;i++ ) N(o,nm,K.value(i/3,i%3)); Homogr_<T1> L( 0.75 ); pt(o,nm,L*w.b); L.init(); pt(o,nm,L*w.b); );
	G( "applyTo", auto v=mk(T1(),{0,1,2}); H.applyTo( v ); for( auto& q: v ) pt(o,nm,q); );
	G( "ellipse", Ellipse_<T1> e( w.b, w.s.r1+5, w.s.r2+1, 0.25 ); ell(o,nm,e); N(o,nm,e.length()); rect(o,nm,e.getBB()); mom(o,nm,e.getOBB().getPts()); auto ax=e.getAxisLines(); N(o,nm,w.b.distTo(ax.first)+5); N(o,nm,w.b.distTo(ax.second)+5); E(o,nm,e.isCircle()); E(o,nm,(int)e.type()); );
	G( "ellipse conv", Ellipse_<T1> e( w.b, 6, 2, 0.25 ); Ellipse_<T2> f(e); ell(o,nm,f); E(o,nm,(int)f.type()); Ellipse_<T1> g; g=Ellipse_<T1>(f); ell(o,nm,g); g.translate( 1, 2 ); ell(o,nm,g); g.moveTo( w.d ); ell(o,nm,g); );
	G( "ellipse inside", Ellipse_<T1> e( w.template X<T1>(0), 4.25, 2.125, 0.3 ); E(o,nm,w.b.isInside(e)); E(o,nm,w.c.isInside(e)); E(o,nm,w.d.isInside(e)); );
	G( "ellipse circle", Ellipse_<T1> e( Circle_<T1>( w.b, 3 ) ); pt(o,nm,e.getCenter()); N(o,nm,e.getMajMin().first); E(o,nm,e.isCircle( 1e-3 )); );
}
template<class T1,class T2> void grp( const c30::Scene& s, int g, Out& o )
{
	W<T1,T2> w( s );
	switch( g ) { case 0: g0( w, o ); break; case 1: g1( w, o ); break; case 2: g2( w, o ); break; case 3: g3( w, o ); break; case 4: g3b( w, o ); break; case 5: g4( w, o ); break; }
}
}
void c30::CFG( const c30::Scene& s, int g, int t1, int t2, std::vector<c30::Ans>& o )
{
	switch( t1*3+t2 )
	{
		case 0: grp<float,float>( s, g, o ); break; case 1: grp<float,double>( s, g, o ); break; case 2: grp<float,long double>( s, g, o ); break;
		case 3: grp<double,float>( s, g, o ); break; case 4: grp<double,double>( s, g, o ); break; case 5: grp<double,long double>( s, g, o ); break;
		case 6: grp<long double,float>( s, g, o ); break; case 7: grp<long double,double>( s, g, o ); break; case 8: grp<long double,long double>( s, g, o ); break;
	}
}
