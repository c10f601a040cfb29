// C31: offset polygons, bisector lines, regular polygons and parallelograms against their definitions.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly; using geo::Emb;
using namespace h2d;
typedef long double LD;
struct V { LD x,y; };
static V operator+( V a, V b ) { return {a.x+b.x,a.y+b.y}; }
static V operator-( V a, V b ) { return {a.x-b.x,a.y-b.y}; }
static V operator*( LD k, V a ) { return {k*a.x,k*a.y}; }
static LD dt( V a, V b ) { return a.x*b.x+a.y*b.y; }
static LD cx( V a, V b ) { return a.x*b.y-a.y*b.x; }
static LD nrm( V a ) { return std::sqrt(dt(a,a)); }
static std::string txt( const std::vector<V>& v ) { std::string s; for( auto& p: v ) s+=str( "(",(double)p.x,",",(double)p.y,")" ); return s; }
template<class PL> std::vector<V> vv( const PL& p ) { std::vector<V> r; for( auto& q: p.getPts() ) r.push_back( {(LD)q.getX(),(LD)q.getY()} ); return r; }

static std::vector<Emb> embs()
{
	auto e=geo::embeddings();
	e.push_back( { 0.7,15000.3,-22000.6,false,false,"far" } );
	return geo::skewed(e);
}
template<class T> std::vector<V> place( const Poly& p, const Emb& e ) { std::vector<V> r; for( auto& q: p ) r.push_back( { (LD)(T)e.X(q.x,q.y), (LD)(T)e.Y(q.x,q.y) } ); return r; }
template<class T> std::vector<Point2d_<T>> pts( const std::vector<V>& v ) { std::vector<Point2d_<T>> r; for( auto& q: v ) r.emplace_back( (T)q.x, (T)q.y ); return r; }
static LD area2( const std::vector<V>& v ) { LD s=0; for( size_t i=0;i<v.size();i++ ) s+=cx( v[i]-v[0], v[(i+1)%v.size()]-v[0] ); return s; }

/// corners where the direction changes, counter-clockwise
static std::vector<V> corners( std::vector<V> v )
{
	if( area2(v)<0 ) std::reverse( v.begin(), v.end() );
	std::vector<V> r; size_t n=v.size();
	for( size_t i=0;i<n;i++ ) { V a=v[i]-v[(i+n-1)%n], b=v[(i+1)%n]-v[i]; if( std::fabs(cx(a,b)) > 1e-4*nrm(a)*nrm(b) ) r.push_back( v[i] ); }
	return r;
}
struct Exp { std::vector<V> plain, split; LD minEdge, minSplit; };   // minEdge: shortest offset edge, negative if one is reversed
/// the offset polygon, from its definition
static Exp expected( const std::vector<V>& c, LD d )
{
	Exp e; size_t n=c.size();
	for( size_t i=0;i<n;i++ )
	{
		V a=c[i]-c[(i+n-1)%n], b=c[(i+1)%n]-c[i];
		V n1=(1/nrm(a))*V{a.y,-a.x}, n2=(1/nrm(b))*V{b.y,-b.x};
		auto meet=[&]( V p, LD dp, V q, LD dq ) { LD det=cx(p,q); return V{ (dp*q.y-dq*p.y)/det, (p.x*dq-q.x*dp)/det }; };
		V x=meet( n1,d,n2,d );
		e.plain.push_back( c[i]+x );
		if( cx(a,b)>0 && d>0 )
		{
			V u=(1/nrm(x))*x;
			e.split.push_back( c[i]+meet(n1,d,u,d) ); e.split.push_back( c[i]+meet(u,d,n2,d) );
		}
		else e.split.push_back( c[i]+x );
	}
	e.minEdge=1e30;
	e.minSplit=1e30; for( size_t i=0;i<e.split.size();i++ ) e.minSplit=std::min( e.minSplit, nrm( e.split[(i+1)%e.split.size()]-e.split[i] ) );
	for( size_t i=0;i<n;i++ ) { V a=c[(i+1)%n]-c[i], b=e.plain[(i+1)%n]-e.plain[i]; e.minEdge=std::min( e.minEdge, dt(a,b)/nrm(a) ); }
	return e;
}
/// same cyclic sequence, whatever the start and the direction
static bool same( const std::vector<V>& a, const std::vector<V>& b, LD tol )
{
	if( a.size()!=b.size() ) return false;
	size_t n=a.size();
	for( size_t s=0;s<n;s++ ) for( int dir: {1,-1} )
	{
		bool ok=true;
		for( size_t i=0;i<n && ok;i++ ) { V d=a[i]-b[ ( s + ( dir>0 ? i : n-i ) )%n ]; ok = std::fabs(d.x)<=tol && std::fabs(d.y)<=tol; }
		if( ok ) return true;
	}
	return false;
}
template<class T> LD tolFor( const std::vector<V>& v, LD extra )
{
	LD m=extra; for( auto& p: v ) m=std::max( m, std::max( std::fabs(p.x), std::fabs(p.y) ) );
	return ( sizeof(T)==4 ? 4e-6L : 1e-11L )*( m+1 )*20;
}
static const double dists[]={ 0.125, 0.5, 1, 3, 25, -0.0625, -0.125, -0.25, -0.5, -1, -1.5, -3, -25 };
/// the offsets of one polygon object at all distances
template<class T> void offsets( const CPolyline_<T>& pl, const std::vector<V>& v, LD s, const char* what="" )
{
	auto c=corners( v );
	LD tol=tolFor<T>( v, 0 );
	// sharp corners amplify the rounding of the lines
	LD amp=1; for( size_t i=0;i<c.size();i++ ) { size_t n=c.size(); V a=c[i]-c[(i+n-1)%n], b=c[(i+1)%n]-c[i]; amp=std::max( amp, nrm(a)*nrm(b)/std::fabs(cx(a,b)) ); }
	for( double k: dists ) for( int split=0; split<2; split++ )
	{
		LD d=k*s;
		auto e=expected( c, d );
		LD t=( tol+( sizeof(T)==4?1e-5L:1e-10L )*std::fabs(d) )*amp;
		if( std::fabs( e.minEdge ) < 4*t ) continue;         // an edge about to vanish
		if( split && e.minSplit < 4*t ) continue;            // two split corners meet in a notch
		OffsetPolyParams par; par._angleSplit=split;
		step();
		auto o = pl.getOffsetPoly( (T)d, par );
		auto g=vv(o);
		if( e.minEdge<0 )
		{
			if( d<0 ) check( g.empty(), "vanished", [&]{ return str( what,"distance ",(double)d,": an edge vanishes, got ",txt(g) ); } );
			continue;                                         // outwards: a notch got filled, no claim
		}
		auto& ex = split ? e.split : e.plain;
		outcome( mix( g.size(), hd( g.empty()?0:(double)g[0].x ) ) );
		check( same( g, ex, split ? t+1e-8L*s : t ), split?"split":"offset", [&]{ return str( what,"distance ",(double)d,": got ",txt(g),", expected ",txt(ex) ); } );
	}
}
template<class T> void offsetCase( const Poly& p, const Emb& e )
{
	run( [&]{
		auto v=place<T>( p, e );
		CPolyline_<T> pl( pts<T>(v) );
		offsets<T>( pl, v, e.s );
	}, [&]{ return str( p," ",e.name ); } );
}
/// exactly coincident vertices: the inside polygon shrinks to a point or to a segment
void vanish( double w, double h, const Emb& e )
{
	run( [&]{
		FRect_<double> r( 0,0,w,h );
		CPolyline_<double> pl( r );
		for( int split=0;split<2;split++ )
		{
			OffsetPolyParams par; par._angleSplit=split;
			for( double k: { 0.5, 0.75, 1., 2. } ) for( double m: {w,h} )
			{
				if( k*m<std::min(w,h)/2 ) continue;
				step();
				std::string what; int th=thrown( [&]{ auto o=pl.getOffsetPoly( -k*m, par ); check( o.size()==0, "vanished", [&]{ return str( "distance ",-k*m,": got ",txt(vv(o)) ); } ); }, &what );
				check( th==0, "vanish-error", [&]{ return str( "distance ",-k*m,": error raised: ",what ); } );
			}
		}
	}, [&]{ return str( "rectangle ",w," x ",h ); } );
	(void)e;
}
/// the object was compared (sorted), transformed, copied... before
template<class T> void history( const Poly& p, const Emb& e )
{
	for( int pre=0; pre<2; pre++ ) for( int op=0; op<12; op++ ) for( int post=0; post<2; post++ )
	run( [&]{
		auto v=place<T>( p, e );
		CPolyline_<T> pl( pts<T>(v) ), other( pts<T>( place<T>( geo::reversed(p), e ) ) );
		if( pre ) check( pl==other, "==" );
		V o=v[0];
		V org{ e.X(1,2), e.Y(1,2) }; Point2d_<T> po( (T)org.x, (T)org.y ); org={ (LD)po.getX(), (LD)po.getY() };
		auto map=[&]( auto f ){ for( auto& q: v ) q=f(q); };
		switch( op )
		{
			case 0: break;
			case 1: pl.rotate( Rotate::CW, po ); map( [&]( V q ){ V r=q-org; return org+V{r.y,-r.x}; } ); break;
			case 2: pl.rotate( Rotate::CCW, po ); map( [&]( V q ){ V r=q-org; return org+V{-r.y,r.x}; } ); break;
			case 3: pl.rotate( Rotate::Full, po ); map( [&]( V q ){ V r=q-org; return org-r; } ); break;
			case 4: pl.rotate( Rotate::VMirror, po ); map( [&]( V q ){ return V{2*org.x-q.x,q.y}; } ); break;
			case 5: pl.rotate( Rotate::HMirror, po ); map( [&]( V q ){ return V{q.x,2*org.y-q.y}; } ); break;
			case 6: pl.translate( (T)3, (T)-2 ); map( [&]( V q ){ return q+V{3,-2}; } ); break;
			case 7: { auto f=pl.getPoint(0); V fv{(LD)f.getX(),(LD)f.getY()}; pl.moveTo( po ); map( [&]( V q ){ return q+(org-fv); } ); } break;
			case 8: { Homogr_<T> H; H.setScale( T(-1), T(1) ); pl = H*pl; map( [&]( V q ){ return V{-q.x,q.y}; } ); } break;
			case 9: { Homogr_<T> H; H.setScale( T(2), T(-2) ); pl = H*pl; map( [&]( V q ){ return V{2*q.x,-2*q.y}; } ); } break;
			case 10: { CPolyline_<T> z; z=pl; std::vector<V> w=v; std::reverse( w.begin(), w.end() ); z.set( pts<T>(w) ); pl=z; } break;
			case 11: { pl.minimize(); } break;
		}
		(void)o;
		if( post ) check( pl==CPolyline_<T>(pl), "==" );
		offsets<T>( pl, v, e.s, "after the history, " );
		// chained: the offset of an offset
		auto c=corners( v ); auto ex=expected( c, 0.5L*e.s );
		if( ex.minEdge>1e-3 ) { auto o1=pl.getOffsetPoly( (T)(0.5*e.s) ); if( geo::isConvexSimple(p) ) offsets<T>( o1, vv(o1), e.s, "offset of an offset, " ); }
	}, [&]{ return str( p," ",e.name,", compared before: ",pre,", operation ",op,", compared after: ",post ); } );
}
template<class T> void rcp( double rad, int n )
{
	run( [&]{
		auto go=[&]( auto radv, auto nv, bool ctor )
		{
			LD R=(LD)radv;
			CPolyline_<T> p; std::pair<double,double> r{0,0};
			if( ctor ) p=CPolyline_<T>( radv, nv ); else { p.set( pts<T>( {{0,0},{5,1},{2,3}} ) ); r=p.set( radv, nv ); }
			LD t=( sizeof(T)==4?1e-5L:1e-9L )*std::max<LD>( R, 1 );
			check( p.size()==(size_t)n, "rcp-size" );
			auto g=vv(p); const LD PI=std::acos(-1.0L);
			for( int i=0;i<n && i<(int)g.size();i++ ) { V x{ R*std::cos(2*PI*i/n), R*std::sin(2*PI*i/n) }; V q=g[i]-x; if( !check( nrm(q)<=t, "rcp-vertex", [&]{ return str( "vertex ",i," ",txt({g[i]}),", expected ",txt({x}) ); } ) ) break; }
			if( !ctor ) check( std::fabs( r.first-2*R*std::sin(PI/n) )<=t && std::fabs( r.second-R*std::cos(PI/n) )<=t, "rcp-values", [&]{ return str( "returned ",r.first," ",r.second,", expected ",(double)(2*R*std::sin(PI/n))," ",(double)(R*std::cos(PI/n)) ); } );
			if( n<=64 && R>=0.1 && ( sizeof(T)>4 || n<20 ) )
			{
				check( p.isConvex() && p.isSimple(), "rcp-convex" );
				check( near( p.area(), n*R*R/2*std::sin(2*PI/n), sizeof(T)==4?1e-3:1e-6 ), "rcp-area", [&]{ return str( "area ",(double)p.area() ); } );
				check( near( p.length(), 2*n*R*std::sin(PI/n), sizeof(T)==4?1e-3:1e-6 ), "rcp-length" );
				p.translate( T(3), T(-2) );
				auto v=vv(p); offsets<T>( p, v, R/4 );
			}
			step();
		};
		go( (T)rad, n, false ); go( (double)rad, (long)n, true ); if( rad==(int)rad ) { go( (int)rad, (size_t)n, false ); go( (int)rad, n, true ); } go( (float)rad, (unsigned char)n, false );
	}, [&]{ return str( "regular polygon radius ",rad,", ",n," points" ); } );
}
template<class T,class T1,class T2,class T3> void para( const Poly& p, const Emb& e, bool reused )
{
	run( [&]{
		auto v=place<float>( p, e );    // the same values for all types
		CPolyline_<T> pl; if( reused ) { pl.set( pts<T>( {{0,0},{5,1},{2,3}} ) ); (void)( pl==pl ); (void)pl.area(); (void)pl.centroid(); (void)pl.isSimple(); }
		step();
		pl.setParallelogram( Point2d_<T1>( (T1)v[0].x,(T1)v[0].y ), Point2d_<T2>( (T2)v[1].x,(T2)v[1].y ), Point2d_<T3>( (T3)v[2].x,(T3)v[2].y ) );
		std::vector<V> ex{ v[0],v[1],v[2], v[0]+v[2]-v[1] };
		V a=v[0]-v[1], b=v[2]-v[1];
		LD amp=nrm(a)*nrm(b)/std::fabs(cx(a,b));
		LD t=tolFor<T>( ex, 0 )*amp;
		auto g=vv(pl);
		check( g.size()==4, "para-size" ); if( g.size()!=4 ) return;
		for( int i=0;i<4;i++ ) check( nrm( g[i]-ex[i] )<=t, "para-vertex", [&]{ return str( "got ",txt(g),", expected ",txt(ex) ); } );
		check( near( pl.area(), std::fabs(cx(a,b)), sizeof(T)==4?1e-2:1e-6 ), "para-area", [&]{ return str( "area ",(double)pl.area(),", expected ",(double)std::fabs(cx(a,b)) ); } );
		check( pl.isSimple() && pl.isConvex(), "para-simple" );
		V cc=0.5L*( v[0]+v[2] ); auto ce=pl.centroid();
		check( nrm( V{(LD)ce.getX(),(LD)ce.getY()}-cc )<=t*50, "para-centroid", [&]{ return str( "centroid ",(double)ce.getX()," ",(double)ce.getY(),", expected ",(double)cc.x," ",(double)cc.y ); } );
	}, [&]{ return str( p," ",e.name," ",sizeof(T),sizeof(T1),sizeof(T2),sizeof(T3),reused?" reused object":"" ); } );
}
/// bisector lines: through the vertex, same angle with both edges (on the side of the edges)
template<class T,class PLT> void bisectors( const Poly& p, const Emb& e )
{
	constexpr bool closed=std::is_same_v<PLT,typ::IsClosed>;
	run( [&]{
		auto v=place<T>( p, e ); size_t n=v.size();
		base::PolylineBase<PLT,T> pl( pts<T>(v) );
		step(2);
		auto b1=getBisectorLines( pl ); auto b2=pl.getBisectorLines();
		size_t first=closed?0:1, last=closed?n:n-1;
		check( b1.size()==last-first && b2.size()==b1.size(), "bis-count", [&]{ return str( b1.size()," lines" ); } );
		if( b1.size()!=last-first || b2.size()!=b1.size() ) return;
		LD t=tolFor<T>( v, 0 );
		for( size_t i=first;i<last;i++ )
		{
			V a=v[(i+n-1)%n]-v[i], b=v[(i+1)%n]-v[i];
			V u=(1/nrm(a))*a+(1/nrm(b))*b;
			if( nrm(u)<1e-3 ) u={-a.y,a.x};
			u=(1/nrm(u))*u;
			for( auto* bl: {&b1,&b2} )
			{
				auto l=(*bl)[i-first].get();
				LD A=l[0],B=l[1],C=l[2], N=std::sqrt(A*A+B*B);
				check( std::fabs( A*v[i].x+B*v[i].y+C )/N <= t, "bis-vertex", [&]{ return str( "line ",i-first," is at ",(double)(std::fabs( A*v[i].x+B*v[i].y+C )/N)," from its vertex" ); } );
				check( std::fabs( A*u.x+B*u.y )/N <= ( sizeof(T)==4?1e-3:1e-7 ), "bis-angle", [&]{ return str( "line ",i-first," direction (",(double)B,",",(double)-A,"), expected (",(double)u.x,",",(double)u.y,")" ); } );
			}
			outcome( mix( i, hd( (double)( u.x*u.y ) ) ) );
		}
	}, [&]{ return str( closed?"closed ":"open ",p," ",e.name ); } );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	bool th=thorough();
	auto E=embs();
	auto g3=geo::grid(0,0,2,2), g4=geo::grid(0,0,3,3);
	for( auto& e: E )
	{
		std::string en=e.name; bool flt= en!="far" && en!="tiny";
		for( int n=3;n<=( th?6:5 );n++ ) geo::sequences( g3, n, true, false, [&]( const Poly& p ){ if( !geo::isSimple(p) ) return;
			section( "offset-"+en ); offsetCase<double>( p, e );
			if( n<=4 || th ) { section( "offset-long-"+en ); offsetCase<long double>( p, e ); if( flt ) { section( "offset-float-"+en ); offsetCase<float>( p, e ); } } } );
		for( int n=3;n<=4;n++ ) geo::sequences( g4, n, true, false, [&]( const Poly& p ){ if( !geo::isSimple(p) || ( !th && ( n==4 && en!="decimal" ) ) ) return; section( "offset4-"+en ); offsetCase<double>( p, e ); } );
		if( th && ( en=="decimal" || en=="far" ) ) geo::sequences( g4, 5, true, false, [&]( const Poly& p ){ if( !geo::isSimple(p) ) return; section( "offset45-"+en ); offsetCase<double>( p, e ); } );
		for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) )
		{
			section( "offset-large-"+en ); offsetCase<double>( p, e ); offsetCase<double>( geo::reversed(p), e );
			section( "bisectors-large-"+en ); bisectors<double,typ::IsClosed>( p, e ); bisectors<double,typ::IsOpen>( p, e );
		}
		section( "history-"+en );
		for( int n=3;n<=( th?5:4 );n++ ) geo::sequences( g3, n, true, n>4, [&]( const Poly& p ){ if( !geo::isSimple(p) ) return; if( n==3 && !th && p[0]!=IP{0,0} ) return; history<double>( p, e ); } );
		for( int n=3;n<=( th?5:4 );n++ ) geo::sequences( g3, n, false, false, [&]( const Poly& p ){
			for( int i=0;i+1<n;i++ ) if( p[i]==p[i+1] ) return;
			if( p[0]==p[n-1] ) return;
			if( n==4 && !th && en!="decimal" && en!="far" ) return;
			section( "bisectors-"+en ); bisectors<double,typ::IsClosed>( p, e ); bisectors<double,typ::IsOpen>( p, e );
			section( "bisectors-long-"+en ); bisectors<long double,typ::IsClosed>( p, e ); bisectors<long double,typ::IsOpen>( p, e );
			if( flt ) { section( "bisectors-float-"+en ); bisectors<float,typ::IsClosed>( p, e ); bisectors<float,typ::IsOpen>( p, e ); }
		} );
		geo::sequences( g4, 3, true, false, [&]( const Poly& p ){
			if( cross(p[0],p[1],p[2])==0 ) return;
			for( int r=0;r<2;r++ )
			{
				section( "para-"+en );
				para<double,double,double,double>( p, e, r );
				para<double,float,double,long double>( p, e, r );
				para<long double,double,float,double>( p, e, r );
				if( flt ) { section( "para-float-"+en ); para<float,float,float,float>( p, e, r ); para<float,double,double,double>( p, e, r ); }
			} } );
	}
	section( "polyominoes" ); for( auto& p: geo::polyominoes( 3, th?4:3 ) ) for( auto& e: E ) offsetCase<double>( p, e );
	section( "vanish" ); for( double w: {1.,2.,2.5,0.3,6.} ) for( double h: {1.,2.,0.7,7.} ) vanish( w, h, E[0] );
	for( int n=3;n<=( th?255:100 );n++ ) for( double r: {0.1,0.5,1.,2.,3.7,10.,25.,1000.,50000.,123456.7} )
	{
		section( "rcp" ); rcp<double>( r, n ); section( "rcp-long" ); rcp<long double>( r, n ); section( "rcp-float" ); rcp<float>( r, n );
	}
	return finish();
}
