// C24: point-set queries return the true extremum.
#include "geo.hpp"
#include <list>
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using namespace h2d;

static std::vector<geo::Emb> embs()
{
	auto v=geo::embeddings(); v.push_back( {0.7,15000.3,-22000.6,false,false,"far"} ); for( auto& e: geo::tilted({}) ) v.push_back(e); return v;
}
template<class T> std::vector<Point2d_<T>> cv( const Poly& p, const geo::Emb& e ) { std::vector<Point2d_<T>> v; for( auto& q: p ) v.emplace_back( (T)e.X(q.x,q.y), (T)e.Y(q.x,q.y) ); return v; }
template<class T> std::list<Point2d_<T>> lst( const std::vector<Point2d_<T>>& v ) { return std::list<Point2d_<T>>( v.begin(), v.end() ); }
template<class T,size_t N> std::array<Point2d_<T>,N> arr( const std::vector<Point2d_<T>>& v ) { std::array<Point2d_<T>,N> a; for( size_t i=0;i<N;i++ ) a[i]=v[i]; return a; }

// ------------------------------------------------------------------ extreme points
static const CardDir dirs[]={ CardDir::Top, CardDir::Bottom, CardDir::Left, CardDir::Right };
template<class T> bool before( CardDir d, const Point2d_<T>& a, const Point2d_<T>& b )
{
	T ax=a.getX(),ay=a.getY(),bx=b.getX(),by=b.getY();
	switch( d )
	{
		case CardDir::Top:    return ay!=by ? ay>by : ax<bx;
		case CardDir::Bottom: return ay!=by ? ay<by : ax<bx;
		case CardDir::Left:   return ax!=bx ? ax<bx : ay<by;
		default:              return ax!=bx ? ax>bx : ay<by;
	}
}
template<class T> bool same( const Point2d_<T>& a, const Point2d_<T>& b ) { return a.getX()==b.getX() && a.getY()==b.getY(); }
template<class T,class C> void extC( const C& c, const std::vector<Point2d_<T>>& v, const char* kind )
{
	for( auto d: dirs )
	{
		size_t ref=0; for( size_t i=1;i<v.size();i++ ) if( before<T>(d,v[i],v[ref]) ) ref=i;
		step(2);
		auto r1 = d==CardDir::Top?getTmPoint(c):d==CardDir::Bottom?getBmPoint(c):d==CardDir::Left?getLmPoint(c):getRmPoint(c);
		auto r2 = getExtremePoint( d, c );
		auto show=[&]{ return str( kind," direction ",(int)d,": ",r1.first," index ",r1.second,", generic ",r2.first," index ",r2.second,", expected ",v[ref]," index ",ref ); };
		check( same<T>(r1.first,v[ref]), "extreme", show );
		check( same<T>(r2.first,v[ref]), "generic", show );
		check( r1.second>=0 && r1.second<(long)v.size() && same<T>(v[r1.second],v[ref]), "index", show );
		check( r2.second==r1.second, "generic-index", show );
		outcome( mix((int)d,r1.second) );
	}
}
template<class T,class PL> void extP( const PL& p, const std::vector<Point2d_<T>>& v, const char* kind )
{
	for( auto d: dirs )
	{
		size_t ref=0; for( size_t i=1;i<v.size();i++ ) if( before<T>(d,v[i],v[ref]) ) ref=i;
		step(4);
		auto a = d==CardDir::Top?p.getTmPoint():d==CardDir::Bottom?p.getBmPoint():d==CardDir::Left?p.getLmPoint():p.getRmPoint();
		auto b = d==CardDir::Top?getTmPoint(p):d==CardDir::Bottom?getBmPoint(p):d==CardDir::Left?getLmPoint(p):getRmPoint(p);
		auto c = p.getExtremePoint(d);
		auto f = getExtremePoint(d,p);
		auto show=[&]{ return str( kind," direction ",(int)d,": member ",a," free ",b," generic ",c,", ",f,", expected ",v[ref] ); };
		check( same<T>(a,v[ref]), "poly", show ); check( same<T>(b,v[ref]), "poly-free", show );
		check( same<T>(c,v[ref]), "poly-generic", show ); check( same<T>(f,v[ref]), "poly-generic-free", show );
	}
}
template<class T> void ext( const Poly& p, const geo::Emb& e, const char* tn )
{
	run( [&]{
		auto v=cv<T>(p,e);
		extC<T>( v, v, "vector" );
		extC<T>( lst(v), v, "list" );
		if( v.size()==3 ) extC<T>( arr<T,3>(v), v, "array" );
		if( v.size()==1 ) extC<T>( arr<T,1>(v), v, "array" );
		bool rep=false; for( size_t i=0;i<p.size();i++ ) rep|= i? p[i]==p[i-1] : false;
		if( !rep && p.size()>1 && p.front()!=p.back() )
		{
			extP<T>( OPolyline_<T>(v), v, "open" );
			{ CPolyline_<T> c(v); extP<T>( c, v, "closed" ); bool b=(c==CPolyline_<T>(v)); (void)b; extP<T>( c, v, "closed, after a comparison" ); }
		}
	}, [&]{ return str( p,' ',e.name,' ',tn ); } );
}

// ------------------------------------------------------------------ nearest / farthest
template<class C,class QP> void nearC( const C& c, const QP& q, const Poly& p, IP qi, bool exact, const char* kind )
{
	ll mn=-1,mx=-1; for( auto& z: p ) if( z!=qi ) { ll d=d2(z,qi); if(mn<0||d<mn) mn=d; if(d>mx) mx=d; }
	if( mn<0 ) { // only copies of the query point: nothing but a normal return or the documented error is claimed
		int t=thrown([&]{ (void)findNearestPoint(q,c); (void)findFarthestPoint(q,c); (void)findNearestFarthestPoint(q,c); });
		check( t<2, "only-copies" ); return; }
	step(3);
	size_t n=findNearestPoint(q,c), f=findFarthestPoint(q,c); auto nf=findNearestFarthestPoint(q,c);
	auto show=[&]{ return str( kind,": nearest ",n," farthest ",f," combined ",nf.first,',',nf.second,", least/greatest squared distance ",mn,'/',mx ); };
	check( n<p.size() && p[n]!=qi && d2(p[n],qi)==mn, "nearest", show );
	check( f<p.size() && p[f]!=qi && d2(p[f],qi)==mx, "farthest", show );
	check( nf.first<p.size()  && p[nf.first]!=qi  && d2(p[nf.first],qi)==mn,  "combined-nearest", show );
	check( nf.second<p.size() && p[nf.second]!=qi && d2(p[nf.second],qi)==mx, "combined-farthest", show );
	outcome( mix( mix(n,f), mix(mn,mx) ) );
}
template<class T,class U> void nearq( const Poly& p, IP q, const geo::Emb& e, double jit, const char* tn )
{
	run( [&]{
		auto v=cv<T>(p,e); Point2d_<U> qp( (U)(e.X(q.x,q.y)+jit), (U)(e.Y(q.x,q.y)-jit) );
		auto v0=v;
		nearC( v, qp, p, q, e.exact, "vector" );
		nearC( lst(v), qp, p, q, e.exact, "list" );
		if( v.size()==3 ) nearC( arr<T,3>(v), qp, p, q, e.exact, "array" );
		if( v.size()==2 ) nearC( arr<T,2>(v), qp, p, q, e.exact, "array" );
		bool ok=v.size()==v0.size(); for( size_t i=0;i<v.size()&&ok;i++ ) ok=same<T>(v[i],v0[i]);
		check( ok, "input", "the container was modified" );
	}, [&]{ return str( "query ",q," points ",p,' ',e.name,' ',tn,jit!=0?" query displaced by 1e-12":"" ); } );
}
// ------------------------------------------------------------------ closest vertices of two polylines
template<class A,class B,class U> void closeAB( const A& a, const B& b, const Poly& p, const Poly& q, double scale, const char* kind )
{
	ll mn=-1; for( auto& x: p ) for( auto& y: q ) { ll d=d2(x,y); if( mn<0||d<mn ) mn=d; }
	step();
	auto r=getClosestPoints( a, b );
	auto id=r.getIndexes(); auto pp=r.getPoints(); double d=(double)r.getMinDist();
	auto show=[&]{ return str( kind," indexes ",id.first,',',id.second," points ",pp.first,',',pp.second," distance ",d,", expected ",std::sqrt((double)mn)*scale ); };
	if( !check( id.first<p.size() && id.second<q.size(), "closest-index", show ) ) return;
	check( d2(p[id.first],q[id.second])==mn, "closest", show );
	check( near( d, std::sqrt((double)mn)*scale, sizeof(U)==4?1e-5:1e-9 ), "closest-distance", show );
	auto P=a.getPoint(id.first); auto Q=b.getPoint(id.second);
	check( (double)P.getX()==(double)pp.first.getX() && (double)P.getY()==(double)pp.first.getY()
	    && (double)Q.getX()==(double)pp.second.getX() && (double)Q.getY()==(double)pp.second.getY(), "closest-points", show );
	outcome( mix(mn,mix(id.first,id.second)) );
}
template<class T,class U> void closest( const Poly& p, const Poly& q, const geo::Emb& e, const char* tn )
{
	run( [&]{
		auto a=cv<T>(p,e); auto b=cv<U>(q,e);
		typedef typename std::conditional<(sizeof(T)<sizeof(U)),T,U>::type S;
		OPolyline_<T> oa(a); OPolyline_<U> ob(b);
		closeAB<OPolyline_<T>,OPolyline_<U>,S>( oa, ob, p, q, e.s, "open/open" );
		CPolyline_<T> ca(a); CPolyline_<U> cb(b);
		closeAB<CPolyline_<T>,OPolyline_<U>,S>( ca, ob, p, q, e.s, "closed/open" );
		closeAB<OPolyline_<T>,CPolyline_<U>,S>( oa, cb, p, q, e.s, "open/closed" );
		closeAB<CPolyline_<T>,CPolyline_<U>,S>( ca, cb, p, q, e.s, "closed/closed" );
	}, [&]{ return str( p," / ",q,' ',e.name,' ',tn ); } );
}
// ------------------------------------------------------------------ points inside a shape
template<class T,class SH> void inside( const Poly& p, const std::vector<int>& in, const geo::Emb& e, const SH& sh, const char* name )
{
	run( [&]{
		for( int i: in ) if( i<0 ) return;          // a point on the border, decided by rounding
		auto v=cv<T>(p,e); step(2);
		std::vector<Point2d_<T>> r=getPtsInside( v, sh );
		auto rl=getPtsInside( lst(v), sh );
		std::vector<Point2d_<T>> l( rl.begin(), rl.end() ), ref;
		for( size_t i=0;i<v.size();i++ ) if( in[i]==1 ) ref.push_back(v[i]);
		auto eq=[&]( const std::vector<Point2d_<T>>& a ) { if( a.size()!=ref.size() ) return false; for( size_t i=0;i<a.size();i++ ) if( !same<T>(a[i],ref[i]) ) return false; return true; };
		check( eq(r), "inside", [&]{ return str( "vector gives ",r.size()," points, expected ",ref.size() ); } );
		check( eq(l), "inside-list", [&]{ return str( "list gives ",l.size()," points, expected ",ref.size() ); } );
		outcome( mix(r.size(),v.size()) );
	}, [&]{ return str( p," in ",name,' ',e.name ); } );
}
template<class T> void insideAll( const Poly& p, const geo::Emb& e )
{
	auto cls=[&]( auto f ) { std::vector<int> o; for( auto& q: p ) { int s=f(q); o.push_back( s>0?1:s<0?0:(e.exact?0:-1) ); } return o; };
	auto pt=[&]( double x, double y ) { return Point2d_<T>( (T)e.X(x,y), (T)e.Y(x,y) ); };
	if( e.m01==0 ) inside<T>( p, cls([&](IP q){ return std::min( std::min(q.x-0,3-q.x), std::min(q.y-0,2-q.y) ); }), e, FRect_<T>( pt(0,0), pt(3,2) ), "rectangle 0,0-3,2" );
	inside<T>( p, cls([&](IP q){ return 4-(int)d2(q,IP{1,1}); }), e, Circle_<T>( pt(1,1), (T)(2*e.s) ), "circle (1,1) radius 2" );
	static const std::vector<Poly> pols{ {{0,0},{3,0},{0,3}}, {{3,3},{0,3},{0,0},{1,2}}, {{0,0},{3,0},{3,3},{2,3},{2,1},{1,1},{1,3},{0,3}} };
	for( auto& w: pols )
		for( int rev=0;rev<2;rev++ )
		{
			auto v=cv<T>( rev?geo::reversed(w):w, e );
			inside<T>( p, cls([&](IP q){ return geo::pip(w,q)>0?1:(geo::pip(w,q)==0?0:-1); }), e, CPolyline_<T>(v), "polygon" );
		}
	// ellipse (x-1)^2/4+(y-1)^2/1 (axes follow the axis exchange of the placement)
	if( std::string(e.name)!="tiny" && std::string(e.name)!="far" )
		inside<T>( p, cls([&](IP q){ return 4-(int)((q.x-1)*(q.x-1)+4*(q.y-1)*(q.y-1)); }), e.exact?geo::Emb{e.s,e.tx,e.ty,e.swap,false,e.name}:e,
			Ellipse_<T>( pt(1,1), (T)(2*e.s), (T)e.s, e.swap?M_PI/2:std::atan2(e.m10,e.m00) ), "ellipse" );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=embs(); bool th=thorough();
	section("extreme");
	for( int n=1;n<=(th?5:4);n++ )
		geo::sequences( geo::grid(0,0,2,2), n, false, false, [&]( const Poly& p ){
			for( auto& e: E ) { ext<double>(p,e,"double"); if( e.exact && n<4 ) { ext<float>(p,e,"float"); ext<long double>(p,e,"long double"); } } } );
	section("nearest");
	for( int n=2;n<=(th?4:3);n++ )
		geo::sequences( geo::grid(0,0,2,2), n, false, false, [&]( const Poly& p ){
			for( auto& q: geo::grid(-1,0,2,2) )
			{
				for( auto& e: E ) { nearq<double,double>(p,q,e,0,"double"); }
				nearq<double,double>(p,q,E[0],1e-12,"double");
				nearq<double,float>(p,q,E[1],0,"double/float query"); nearq<float,double>(p,q,E[1],0,"float/double query"); nearq<float,float>(p,q,E[2],0,"float"); nearq<long double,long double>(p,q,E[0],0,"long double");
			} } );
	if( !th )
		geo::sequences( geo::grid(0,0,2,1), 4, false, false, [&]( const Poly& p ){ for( auto& q: geo::grid(0,-1,2,1) ) nearq<double,double>(p,q,E[0],0,"double"); } );
	section("near-ties");                            // distances that differ by 5e-11 of their value or more
	{
		const Poly ring{ {100000,0},{100000,1},{99999,447},{60000,80000},{60000,-80001},{-80000,59999},{0,-100000},{-1,-100000} };
		for( int n=2;n<=(th?4:3);n++ )
			geo::sequences( ring, n, false, false, [&]( const Poly& p ){ nearq<double,double>(p,{0,0},E[0],0,"double"); nearq<double,double>(p,{0,0},E[1],0,"double"); nearq<long double,double>(p,{0,0},E[0],0,"long double"); nearq<double,float>(p,{0,0},E[0],0,"float query"); } );
		for( int n=2;n<=3;n++ )
			geo::sequences( ring, n, true, false, [&]( const Poly& p ){ closest<double,double>( p, Poly{{0,0},{-1,-2}}, E[0], "double" ); closest<double,double>( Poly{{1,0},{0,0}}, p, E[1], "double" ); } );
	}
	section("closest");
	for( int n=2;n<=3;n++ ) for( int m=2;m<=(th?3:2);m++ )
		geo::sequences( geo::grid(0,0,2,2), n, true, false, [&]( const Poly& p ){
			geo::sequences( geo::grid(1,0,3,1), m, true, false, [&]( const Poly& q ){
				closest<double,double>(p,q,E[0],"double"); closest<double,double>(q,p,E[0],"double");
				if( n==2 || th ) { for( size_t k=1;k<E.size();k++ ) closest<double,double>(p,q,E[k],"double"); closest<float,double>(p,q,E[1],"float/double"); closest<float,float>(p,q,E[2],"float"); closest<long double,double>(p,q,E[0],"long double/double"); }
			} ); } );
	section("inside");
	for( int n=0;n<=2;n++ )
		geo::sequences( geo::grid(-1,-1,3,3), n, false, false, [&]( const Poly& p ){
			for( auto& e: E ) insideAll<double>(p,e);
			insideAll<float>(p,E[0]); } );
	for( auto& e: E ) { insideAll<double>( geo::grid(-1,-1,4,4), e ); insideAll<double>( geo::reversed(geo::grid(-1,-1,4,4)), e ); }
	section("large");
	for( int n: geo::bigSizes() ) { auto B=geo::big(n), S=geo::big(9); for( auto& p: B )
	{
		for( size_t k=0;k<2*p.size();k++ ) { const Poly q=geo::listing(p,k); for( int ei: {0,3} ) { ext<double>(q,E[ei],"double"); for( auto& c: { q[0], q.back(), q[q.size()/2] } ) for( auto d: { IP{0,0},IP{1,0},IP{-2,1},IP{0,40} } ) nearq<double,double>(q,{c.x+d.x,c.y+d.y},E[ei],0,"double"); } }
		for( auto q: S ) for( auto& c: p ) { for( auto& v: q ) { v.x+=c.x+3; v.y+=c.y-19; } closest<double,double>(p,q,E[0],"double"); closest<double,double>(q,p,E[0],"double"); for( auto& v: q ) { v.x-=c.x+3; v.y-=c.y-19; } }
	} }
	section("too-small");
	run( [&]{
		std::vector<Point2d> v; std::list<Point2d> l; Point2d q(1,2);
		auto T=[&]( const char* n, auto f ) { check( thrown(f)==1, "no-throw", n ); };
		for( int k=0;k<2;k++ )
		{
			T( "nearest", [&]{ findNearestPoint(q,v); } ); T( "nearest list", [&]{ findNearestPoint(q,l); } );
			T( "farthest", [&]{ findFarthestPoint(q,v); } ); T( "farthest list", [&]{ findFarthestPoint(q,l); } );
			T( "both", [&]{ findNearestFarthestPoint(q,v); } ); T( "both list", [&]{ findNearestFarthestPoint(q,l); } );
			if( !k )
			{
				T( "top", [&]{ getTmPoint(v); } ); T( "bottom", [&]{ getBmPoint(v); } ); T( "left", [&]{ getLmPoint(v); } ); T( "right", [&]{ getRmPoint(v); } );
				T( "top list", [&]{ getTmPoint(l); } );
				for( auto d: dirs ) { T( "generic", [&]{ getExtremePoint(d,v); } ); CPolyline c; OPolyline o; T( "polygon", [&]{ c.getExtremePoint(d); } ); T( "open", [&]{ getExtremePoint(d,o); } ); }
				CPolyline c,c1(std::vector<Point2d>{{0,0},{1,1},{1,2}}); OPolyline o;
				T( "closest", [&]{ getClosestPoints(c,c1); } ); T( "closest", [&]{ getClosestPoints(c1,c); } ); T( "closest", [&]{ getClosestPoints(o,c1); } ); T( "closest", [&]{ getClosestPoints(c,o); } );
			}
			v.push_back( Point2d(3,4) ); l.push_back( Point2d(3,4) );
		}
	}, [&]{ return "containers with too few points"; } );
	return finish();
}
