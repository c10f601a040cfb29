// C16: minimize() removes exactly the vertices lying on the straight path between their neighbours.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using namespace h2d;

struct Place { double ang, s, tx, ty; const char* name;
	double X( const IP& p ) const { return s*( std::cos(ang)*p.x-std::sin(ang)*p.y )+tx; }
	double Y( const IP& p ) const { return s*( std::sin(ang)*p.x+std::cos(ang)*p.y )+ty; } };

static std::vector<size_t> keptIdx( const Poly& p, bool closed )
{
	std::vector<size_t> k; size_t n=p.size();
	for( size_t i=0;i<n;i++ )
	{
		if( !closed && (i==0||i==n-1) ) { k.push_back(i); continue; }
		const IP &a=p[(i+n-1)%n], &b=p[i], &c=p[(i+1)%n];
		if( n>=3 && cross(a,b,c)==0 && (b.x-a.x)*(c.x-b.x)+(b.y-a.y)*(c.y-b.y)>0 ) continue;
		k.push_back(i);
	}
	return k;
}
template<bool C,class T>
void one( const Poly& p, const Place& e )
{
	typedef std::conditional_t<C,CPolyline_<T>,OPolyline_<T>> PL;
	if( p.size()<2 || p[0]==p.back() ) return;
	run( [&]{
		std::vector<Point2d_<T>> v; for( auto& q: p ) v.emplace_back( (T)e.X(q), (T)e.Y(q) );
		PL a(v);
		auto keep=keptIdx(p,C);
		double len = a.length(), area=a.area(); bool simple=a.isSimple();
		a.minimize(); step();
		const PL& ca=a;
		auto listed=[&]{ std::string s; for( auto& q: ca.getPts() ) s+=str('(',q.getX(),',',q.getY(),')'); return s; };
		bool ok = a.size()==keep.size();
		for( size_t i=0;ok&&i<keep.size();i++ ) ok = ca.getPts()[i].getX()==v[keep[i]].getX() && ca.getPts()[i].getY()==v[keep[i]].getY();
		check( ok, "kept", [&]{ std::string s; for( auto i: keep ) s+=str(p[i]); return str( "left with ",listed(),", expected (unplaced) ",s ); } );
		double tol = sizeof(T)==4?2e-5:1e-9;
		check( near( (double)a.length(), len, tol ), "length", [&]{ return str( "length ",len," becomes ",a.length() ); } );
		if( sizeof(T)>4 && simple ) check( a.isSimple() && near( (double)a.area(), area, 1e-6 ), "area", [&]{ return str( "area ",area," becomes ",a.area() ); } );
		if( ok && a.size()>=2 )
		{
			PL b(a); b.minimize(); step();
			check( b.size()==a.size(), "twice", [&]{ return str( "second call leaves ",b.size()," of ",a.size() ); } );
			check( b==a, "twice", "second call changes the polyline" );
		}
		outcome( mix( p.size(), mix( a.size(), hd(len) ) ) );
	}, [&]{ return str( C?"closed ":"open ", p, " placement ", e.name ); } );
}
template<class T> void both( const Poly& p, const Place& e ) { one<true,T>(p,e); one<false,T>(p,e); }

/// regular polygons with so many vertices that each turn is under the angle threshold: the path must not vanish
void smooth( bool closed )
{
	section( "smooth" );
	for( size_t n: {100,1000,3000,6000,6283,6284,7000,20000} ) for( int per: {0,1} )
	run( [&]{
		std::vector<Point2d_<double>> v; const double R=50;
		for( size_t i=0;i<n;i++ ) { double a=2*M_PI*((double)i/n)*( closed?1.:0.75 )+per*0.3; v.emplace_back( R*std::cos(a), R*std::sin(a) ); }
		auto go=[&]( auto pl )
		{
			pl.minimize(); step();
			check( pl.size()>=3, "vanished", [&]{ return str( n," vertices, left with ",pl.size() ); } );
			const auto& cp=pl;
			double ext=0, sag=0; size_t m=cp.size();
			for( size_t i=0;i+(closed?0:1)<m;i++ ) {
				auto a=cp.getPts()[i], b=cp.getPts()[(i+1)%m];
				double mx=(a.getX()+b.getX())/2, my=(a.getY()+b.getY())/2;
				sag=std::max( sag, R-std::hypot(mx,my) ); ext=std::max( ext, std::fabs( std::hypot(a.getX(),a.getY())-R ) ); }
			check( sag<R*0.001 && ext<1e-9, "path", [&]{ return str( n," vertices: the minimized path is ",sag," away" ); } );
			outcome( m );
		};
		if( closed ) go( CPolyline_<double>(v) ); else go( OPolyline_<double>(v) );
	}, [&]{ return str( closed?"closed":"open"," arc of ",n," vertices, phase ",per ); } );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	std::vector<Place> P{ {0,1,0,0,"unit"}, {0,0.3,12.7,-5.1,"decimal"}, {M_PI/2,1,0,0,"quarter turn"}, {M_PI,1,0,0,"half turn"}, {-M_PI/2,0.7,3,9,"three quarters"}, {M_PI,0.1,0.1,0.2,"half turn decimal"},
		{0.4,2.3,-7,1.9,"rotated"}, {M_PI/6,1,0,0,"30 deg"}, {0.7,0.7,15000.3,-22000.6,"far"}, {1.1,0.01,1,1,"small"},
		{4e-4,1,0.3,-2.1,"tilted by 4e-4"}, {M_PI-3e-4,1,0,0,"nearly half turn"}, {-M_PI/2+2e-4,2,1,1,"nearly three quarters"}, {M_PI/4+1e-3,1,0,0,"nearly 45 deg"} };
	for( size_t pi=0;pi<P.size();pi++ )
	{
		auto& e=P[pi];
		section( str( "lists-", e.name ) );
		geo::sequences( geo::grid(0,0,2,2), 2, true, false, [&]( const Poly& p ) { both<double>(p,e); } );
		geo::sequences( geo::grid(0,0,2,2), 3, true, false, [&]( const Poly& p ) { both<double>(p,e); } );
		auto rep=[&]( const Poly& p ) { for( size_t i=1;i<p.size();i++ ) if( p[i]==p[i-1] ) return; both<double>(p,e); };
		geo::sequences( geo::grid(0,0,2,2), 4, false, false, rep );
		geo::sequences( geo::grid(0,0,2,2), 5, false, false, rep );
		if( pi<3 || thorough() ) geo::sequences( geo::grid(0,0,2,1), 6, false, false, rep );
		geo::sequences( {{0,0},{1,0},{2,0},{3,0},{4,0}}, 6, false, false, rep );
		geo::sequences( {{0,0},{-1,1},{-2,2},{-3,3},{0,3}}, 6, false, false, rep );
		if( thorough() ) geo::sequences( geo::grid(0,0,2,2), 6, false, false, rep );
	}
	section( "float" );
	for( size_t pi: {0,1,2,3,4,6} ) geo::sequences( geo::grid(0,0,2,2), 4, true, false, [&]( const Poly& p ) { both<float>(p,P[pi]); } );
	section( "long double" );
	for( size_t pi: {0,1,2,3,4,6} ) geo::sequences( geo::grid(0,0,2,2), 4, true, false, [&]( const Poly& p ) { both<long double>(p,P[pi]); } );
	section( "polyomino" );           // redundant points on every unit edge of every polyomino, all listings
	for( auto& q: geo::polyominoes(3,thorough()?4:3) )
	{
		Poly r; for( size_t i=0;i<q.size();i++ ) { IP a=q[i], b=q[(i+1)%q.size()]; int n=std::max( std::llabs(b.x-a.x), std::llabs(b.y-a.y) ); for( int k=0;k<n;k++ ) r.push_back( {a.x+(b.x-a.x)/n*k, a.y+(b.y-a.y)/n*k} ); }
		for( size_t k=0;k<2*r.size();k++ ) for( size_t pi: {0,1,2,3} ) both<double>( geo::listing(r,k), P[pi] );
	}
	section( "large" );          // redundant points on some of the edges of polygons with many vertices
	for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) ) for( int every: {1,2,5,100} )
	{
		Poly r; for( size_t i=0;i<p.size();i++ ) { r.push_back( {p[i].x*6,p[i].y*6} ); IP b=p[(i+1)%p.size()]; if( i%every==0 || i+1==p.size() ) for( int k=1;k<6;k+=(every==2?4:2) ) r.push_back( {p[i].x*6+(b.x-p[i].x)*k,p[i].y*6+(b.y-p[i].y)*k} ); }
		for( size_t k=0;k<2*r.size();k+=(thorough()?1:7) ) for( size_t pi: {0,1,3} ) both<double>( geo::listing(r,k), P[pi] );
	}
	smooth(true); smooth(false);
	return finish();
}
