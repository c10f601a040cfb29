// C21: bounding boxes of objects, of pairs of objects and of containers are tight.
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
using namespace mc; using geo::Poly; using namespace h2d;

/// reference extent of an object: none, or [x0,x1]x[y0,y1]; "noBB": line (never has one)
struct Ext { bool any=false; double x0=0,x1=0,y0=0,y1=0; void add( double xa, double ya, double xb, double yb ) { if( !any ) { x0=xa;x1=xb;y0=ya;y1=yb; any=true; } else { x0=std::min(x0,xa);x1=std::max(x1,xb);y0=std::min(y0,ya);y1=std::max(y1,yb); } }
	void add( const Ext& o ) { if( o.any ) add(o.x0,o.y0,o.x1,o.y1); } bool box() const { return any && x1>x0 && y1>y0; } };
enum Kind { KPoint, KSeg, KOSeg, KLine, KCirc, KRect, KEll, KCPol, KOPol };
struct Obj { Kind k; Poly p; double a=0,b=0,th=0; std::string str() const { static const char* n[]={"Point","Seg","OSeg","Line","Circle","Rect","Ellipse","CPol","OPol"}; return mc::str(n[k],p,(k==KCirc?mc::str(" r=",a):k==KEll?mc::str(" a=",a," b=",b," th=",th):std::string())); } };
static Ext ext( const Obj& o, const geo::Emb& e )
{
	Ext r;
	if( o.k==KLine ) return r;
	if( o.k==KCirc ) { double X=e.X(o.p[0].x,o.p[0].y), Y=e.Y(o.p[0].x,o.p[0].y); r.add( X-o.a*e.s, Y-o.a*e.s, X+o.a*e.s, Y+o.a*e.s ); return r; }
	if( o.k==KEll ) { double X=e.X(o.p[0].x,o.p[0].y), Y=e.Y(o.p[0].x,o.p[0].y), c=std::cos(o.th), s=std::sin(o.th), a=o.a*e.s, b=o.b*e.s, w=std::sqrt(a*a*c*c+b*b*s*s), h=std::sqrt(a*a*s*s+b*b*c*c); r.add( X-w, Y-h, X+w, Y+h ); return r; }
	for( auto& q: o.p ) r.add( e.X(q.x,q.y), e.Y(q.x,q.y), e.X(q.x,q.y), e.Y(q.x,q.y) );
	return r;
}
template<class T> Point2d_<T> P( const geo::Emb& e, IP q ) { return Point2d_<T>( (T)e.X(q.x,q.y), (T)e.Y(q.x,q.y) ); }
template<class T> std::vector<Point2d_<T>> V( const geo::Emb& e, const Poly& p ) { std::vector<Point2d_<T>> v; for( auto& q: p ) v.push_back( P<T>(e,q) ); return v; }
/// calls f with the library object
template<class T,class F> void with( const Obj& o, const geo::Emb& e, F f )
{
	switch( o.k )
	{
		case KPoint: f( P<T>(e,o.p[0]) ); break;
		case KSeg: f( Segment_<T>( P<T>(e,o.p[0]), P<T>(e,o.p[1]) ) ); break;
		case KOSeg: f( OSegment_<T>( P<T>(e,o.p[0]), P<T>(e,o.p[1]) ) ); break;
		case KLine: f( Line2d_<T>( P<T>(e,o.p[0]), P<T>(e,o.p[1]) ) ); break;
		case KCirc: f( Circle_<T>( P<T>(e,o.p[0]), (T)(o.a*e.s) ) ); break;
		case KRect: f( FRect_<T>( P<T>(e,o.p[0]), P<T>(e,o.p[1]) ) ); break;
		case KEll: f( Ellipse_<T>( P<T>(e,o.p[0]), o.a*e.s, o.b*e.s, o.th ) ); break;
		case KCPol: { CPolyline_<T> c; if( o.p.size() ) c.set( V<T>(e,o.p) ); f( c ); break; }
		case KOPol: { OPolyline_<T> c; if( o.p.size() ) c.set( V<T>(e,o.p) ); f( c ); break; }
	}
}
template<class T,class R>
void same( const R& r, const Ext& x, const geo::Emb& e, bool ell, const char* w )
{
	double m=std::fabs(e.tx)+std::fabs(e.ty)+12*e.s, tol = sizeof(T)==4 ? 1e-6*m : 1e-13*m;
	if( ell ) tol=std::max( tol*10, std::min( sizeof(T)==4?2e-2:1e-4, (sizeof(T)==4?2e-5:1e-13)*m*m/e.s*10 ) );
	auto p=r.getPts(); double a=p.first.getX(), b=p.first.getY(), c=p.second.getX(), d=p.second.getY();
	check( near(a,x.x0,tol) && near(b,x.y0,tol) && near(c,x.x1,tol) && near(d,x.y1,tol), "tight", [&]{ return str( w,": ",r,", expected ",x.x0,',',x.y0,' ',x.x1,',',x.y1 ); } );
	outcome( mix( mix(hd(a),hd(b)), mix(hd(c),hd(d)) ) );
}
/// BB expected (or a throw)
template<class T,class F> void expect( F f, const Ext& x, const geo::Emb& e, bool ell, const char* w, bool mayThrow=false )
{
	FRect_<double> r; int t=thrown( [&]{ r=f(); } );
	if( !x.box() ) { check( t==1, "no box", [&]{ return str( w,t==0?": no exception but ":": other exception ", r ); } ); return; }
	if( mayThrow && t==1 ) return;
	if( !check( t==0, "throws", [&]{ return str( w,": exception, expected ",x.x0,',',x.y0,' ',x.x1,',',x.y1 ); } ) ) return;
	same<T>( r, x, e, ell, w );
}
static bool skip( const Obj& o, const geo::Emb& e ) { return o.k==KEll && (std::string(e.name)=="tiny" || std::string(e.name)=="far"); }  // absolute thresholds, cancellation: see DESIGN

template<class T> void single( const Obj& o, const geo::Emb& e )
{
	if( skip(o,e) ) return;
	run( [&]{
		Ext x=ext(o,e);
		with<T>( o, e, [&]( const auto& obj ) {
			typedef std::decay_t<decltype(obj)> O;
			if constexpr( trait::HasBB<O>::value )
			{
				expect<T>( [&]{ return FRect_<double>(obj.getBB()); }, x, e, o.k==KEll, "member" );
				expect<T>( [&]{ return FRect_<double>(getBB(obj)); }, x, e, o.k==KEll, "free" );
			}
#ifdef HOMOG2D_ENABLE_VRTP
			CommonType_<T> v(obj);
			Ext none; bool noBB = o.k==KPoint||o.k==KSeg||o.k==KOSeg||o.k==KLine;
			expect<T>( [&]{ return FRect_<double>(getBB(v)); }, noBB?none:x, e, o.k==KEll, "variant" );
#endif
		} );
	}, [&]{ return str( o.str(),' ',e.name ); } );
}
template<class T1,class T2> void pair( const Obj& o1, const Obj& o2, const geo::Emb& e )
{
	if( skip(o1,e)||skip(o2,e) ) return;
	run( [&]{
		Ext x=ext(o1,e); x.add( ext(o2,e) );
		with<T1>( o1, e, [&]( const auto& a ) { with<T2>( o2, e, [&]( const auto& b ) {
			typedef std::decay_t<decltype(a)> A; typedef std::decay_t<decltype(b)> B;
			typedef std::conditional_t<(sizeof(T1)<sizeof(T2)),T1,T2> S;
			if constexpr( !std::is_same_v<A,Line2d_<T1>> && !std::is_same_v<B,Line2d_<T2>> )
				expect<S>( [&]{ return FRect_<double>(getBB(a,b)); }, x, e, o1.k==KEll||o2.k==KEll, "pair" );
		} ); } );
	}, [&]{ return str( o1.str(),' ',o2.str(),' ',e.name ); } );
}
/// containers of one type
template<class T,class O>
void cont( const std::vector<O>& v, const Ext& x, const geo::Emb& e, bool ell, bool may, bool few )
{
	std::list<O> l( v.begin(), v.end() );
	Ext none;
	expect<T>( [&]{ return FRect_<double>(getBB(v)); }, few?none:x, e, ell, "vector", may );
	expect<T>( [&]{ return FRect_<double>(getBB(l)); }, few?none:x, e, ell, "list", may );
	if( v.size()==1 ) { std::array<O,1> a{v[0]}; expect<T>( [&]{ return FRect_<double>(getBB(a)); }, few?none:x, e, ell, "array", may ); }
	if( v.size()==2 ) { std::array<O,2> a{v[0],v[1]}; expect<T>( [&]{ return FRect_<double>(getBB(a)); }, x, e, ell, "array", may ); }
	if( v.size()==3 ) { std::array<O,3> a{v[0],v[1],v[2]}; expect<T>( [&]{ return FRect_<double>(getBB(a)); }, x, e, ell, "array", may ); }
}
template<class T,class O> void contOf( const std::vector<const Obj*>& os, const geo::Emb& e )
{
	for( auto* o: os ) if( skip(*o,e) ) return;
	run( [&]{
		std::vector<O> v; Ext x; bool may=false;
		for( auto* o: os ) { Ext y=ext(*o,e); x.add(y); if( (o->k==KCPol||o->k==KOPol) && !y.box() ) may=true; with<T>( *o, e, [&]( const auto& ob ) { if constexpr( std::is_same_v<std::decay_t<decltype(ob)>,O> ) v.push_back(ob); } ); }
		assert( v.size()==os.size() );
		cont<T>( v, x, e, os.size() && os[0]->k==KEll, may, false );
	}, [&]{ std::string s; for( auto* o: os ) s+=o->str()+" "; return s+e.name; } );
}
template<class T,class O> void containers( const std::vector<Obj>& A, Kind k, const geo::Emb& e )
{
	std::vector<const Obj*> K; for( auto& o: A ) if( o.k==k ) K.push_back(&o);
	contOf<T,O>( {}, e );
	for( auto* a: K ) { contOf<T,O>( {a}, e ); for( auto* b: K ) { contOf<T,O>( {a,b}, e ); for( auto* c: K ) contOf<T,O>( {a,b,c}, e ); } }
}
#ifdef HOMOG2D_ENABLE_VRTP
template<class T> void mixed( const std::vector<const Obj*>& os, const geo::Emb& e )
{
	for( auto* o: os ) if( skip(*o,e) ) return;
	run( [&]{
		std::vector<CommonType_<T>> v; Ext x; bool ell=false;
		for( auto* o: os ) { x.add(ext(*o,e)); ell=ell||o->k==KEll; with<T>( *o, e, [&]( const auto& ob ) { v.emplace_back(ob); } ); }
		expect<T>( [&]{ return FRect_<double>(getBB(v)); }, x, e, ell, "variants" );
		std::list<CommonType_<T>> l(v.begin(),v.end());
		expect<T>( [&]{ return FRect_<double>(getBB(l)); }, x, e, ell, "list of variants" );
		if( v.size()==2 ) { std::array<CommonType_<T>,2> a{v[0],v[1]}; expect<T>( [&]{ return FRect_<double>(getBB(a)); }, x, e, ell, "array of variants" ); }
	}, [&]{ std::string s; for( auto* o: os ) s+=o->str()+" "; return s+e.name; } );
}
#endif

int main( int argc, char** argv )
{
	init( argc, argv );
	std::vector<geo::Emb> all=geo::rounded(); all.push_back( {0.7,15000.3,-22000.6,false,false,"far"} );
	const double pi=std::acos(-1.);
	std::vector<Obj> A{
		{KPoint,{{0,0}}},{KPoint,{{3,0}}},{KPoint,{{0,2}}},{KPoint,{{5,-4}}},
		{KSeg,{{0,0},{3,0}}},{KSeg,{{0,0},{0,2}}},{KSeg,{{1,3},{4,1}}},{KSeg,{{-2,-1},{1,2}}},{KSeg,{{6,0},{8,0}}},
		{KOSeg,{{3,0},{0,0}}},{KOSeg,{{0,2},{0,0}}},{KOSeg,{{1,3},{4,1}}},{KOSeg,{{4,4},{-3,1}}},
		{KLine,{{0,0},{1,1}}},{KLine,{{0,3},{1,3}}},
		{KCirc,{{0,0}},2},{KCirc,{{3,-2}},1},{KCirc,{{1,1}},5},
		{KRect,{{0,0},{2,3}}},{KRect,{{-3,1},{-1,4}}},{KRect,{{1,-2},{6,-1}}},
		{KEll,{{1,0}},3,1,0},{KEll,{{0,2}},4,2,pi/2},{KEll,{{2,-1}},3,2,pi/6},{KEll,{{-1,1}},3,3,0},
		{KCPol,{}},{KCPol,{{0,0},{3,0}}},{KCPol,{{1,1},{4,2},{2,5}}},{KCPol,{{2,-3},{0,-2},{5,0},{3,-6}}},{KCPol,{{0,0},{0,2},{0,1}}},
		{KOPol,{}},{KOPol,{{0,4},{0,0}}},{KOPol,{{3,1},{0,2}}},{KOPol,{{-1,0},{-4,3},{2,2},{0,-3}}},{KOPol,{{0,0},{3,0},{1,0}}} };
	for( auto& e: all )
	{
		section( str("single-",e.name) ); for( auto& o: A ) { single<double>(o,e); single<long double>(o,e); if( e.exact ) single<float>(o,e); }
		section( str("pair-",e.name) ); for( auto& o: A ) for( auto& q: A ) { pair<double,double>(o,q,e); pair<double,long double>(o,q,e); if( e.exact ) pair<float,double>(o,q,e), pair<double,float>(o,q,e); }
		section( str("container-",e.name) );
		containers<double,Point2d>(A,KPoint,e); containers<double,Segment>(A,KSeg,e); containers<double,OSegment>(A,KOSeg,e); containers<double,Circle>(A,KCirc,e); containers<double,FRect>(A,KRect,e); containers<double,Ellipse>(A,KEll,e); containers<double,CPolyline>(A,KCPol,e); containers<double,OPolyline>(A,KOPol,e);
		containers<long double,Point2dL>(A,KPoint,e); containers<long double,CircleL>(A,KCirc,e); containers<long double,CPolylineL>(A,KCPol,e); containers<long double,SegmentL>(A,KSeg,e);
		if( e.exact ) containers<float,Point2dF>(A,KPoint,e), containers<float,CircleF>(A,KCirc,e), containers<float,OPolylineF>(A,KOPol,e);
		section( str("points-",e.name) );   // all point sets: subsets of a grid of every size, plus rotations of the list
		{
			auto g=geo::grid(0,0,2,2);
			for( size_t n=2;n<=9;n++ ) geo::subsets( g, n, [&]( const Poly& p ) {
				auto go=[&]( const Poly& q ) { run( [&]{ Ext x; for( auto& t: q ) x.add( e.X(t.x,t.y),e.Y(t.x,t.y),e.X(t.x,t.y),e.Y(t.x,t.y) ); cont<double>( V<double>(e,q), x, e, false, false, false );
					if( q.size()>2 ) { OPolyline o(V<double>(e,q)); expect<double>( [&]{ return FRect_<double>(o.getBB()); }, x, e, false, "polyline" ); CPolyline c(V<double>(e,q)); expect<double>( [&]{ return FRect_<double>(getBB(c)); }, x, e, false, "polyline" ); } }, [&]{ return str(q,' ',e.name); } ); };
				Poly q=p; if( n<=4 ) { do go(q); while( std::next_permutation(q.begin(),q.end()) ); } else { for( size_t r=0;r<n;r++ ) { std::rotate(q.begin(),q.begin()+1,q.end()); go(q); } } } );
		}
#ifdef HOMOG2D_ENABLE_VRTP
		section( str("mixed-",e.name) );
		mixed<double>( {}, e );
		for( auto& a: A ) { mixed<double>( {&a}, e ); for( auto& b: A ) { mixed<double>( {&a,&b}, e ); mixed<long double>( {&a,&b}, e ); if( e.exact ) mixed<float>( {&a,&b}, e ); if( e.exact || thorough() ) for( auto& c: A ) mixed<double>( {&a,&b,&c}, e ); } }
		if( thorough() && std::string(e.name)=="unit" ) for( auto& a: A ) for( auto& b: A ) for( auto& c: A ) for( auto& d: A ) mixed<double>( {&a,&b,&c,&d}, e );
#endif
	}
	section( "large" );                   // many elements, one of them away from the others, at every position
	for( int n: {5,9,13,17,24,33} ) for( int ei: {0,3} )
	{
		auto& e=all[ei]; const std::vector<Obj> K{ {KPoint,{{0,0}}}, {KSeg,{{0,0},{3,1}}}, {KOSeg,{{2,5},{0,0}}}, {KCirc,{{0,0}},2}, {KRect,{{0,0},{2,3}}}, {KEll,{{1,0}},3,1,0}, {KCPol,{{1,1},{4,2},{2,5}}}, {KOPol,{{0,0},{3,1},{1,0}}} };
		for( int k=0;k<n;k++ ) for( auto d: { IP{50,3},IP{-40,-60},IP{2,70} } )
		{
			std::vector<Obj> M;
			for( auto& o: K )
			{
				std::vector<Obj> v; for( int i=0;i<n;i++ ) { Obj q=o; for( auto& t: q.p ) { t.x+= i==k?d.x:i; t.y+= i==k?d.y:i*2%5; } v.push_back(q); } M.push_back( v[k] ); M.push_back( v[(k+1)%n] );
				std::vector<const Obj*> w; for( auto& q: v ) w.push_back(&q);
				switch( o.k ) { case KPoint: contOf<double,Point2d>(w,e); break; case KSeg: contOf<double,Segment>(w,e); break; case KOSeg: contOf<double,OSegment>(w,e); break; case KCirc: contOf<double,Circle>(w,e); break; case KRect: contOf<double,FRect>(w,e); break;
					case KEll: contOf<double,Ellipse>(w,e); break; case KCPol: contOf<double,CPolyline>(w,e); break; default: contOf<double,OPolyline>(w,e); }
				if( o.k==KPoint ) { Poly p; for( auto& q: v ) p.push_back(q.p[0]); single<double>( {KCPol,p}, e ); single<double>( {KOPol,p}, e ); }
			}
#ifdef HOMOG2D_ENABLE_VRTP
			std::vector<const Obj*> w; for( int i=0;i<n;i++ ) w.push_back( &M[ i==k ? 2*(k%8) : (2*i)%16+1 ] ); mixed<double>( w, e );
#endif
		}
	}
	section( "degenerate" );
	run( [&]{
		check( thrown([&]{ std::vector<Line2d> v{Line2d(1,1)}; getBB(v); })==1, "lines", "container of lines" );
		std::vector<Point2d> v{{1,2}}; check( thrown([&]{ getBB(v); })==1, "few", "single point" );
		std::vector<Point2d> w{{1,2},{1,2},{1,2}}; check( thrown([&]{ getBB(w); })==1, "few", "identical points" );
	}, [&]{ return "degenerate containers"; } );
	return finish();
}
