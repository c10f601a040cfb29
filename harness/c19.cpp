// C19: the minimum enclosing circle is minimal for every internal random choice.
// std::rand() as seen by the library is replaced by a choice point: the explorer enumerates every sequence of
// values it can return (depth-first over the choice tree of each run).
#include "geo.hpp"
#include <list>
#include <stack>
#include <cassert>
#include <variant>
#include <limits>
#include <memory>
#include <type_traits>
#include <iostream>
#include <iomanip>
#include <fstream>

namespace mcr {
struct Choice { size_t v, n; };
static std::vector<Choice> tree;       // current path
static size_t pos=0, maxBranch=1000;   // after maxBranch choices the first value is always taken
static size_t unknownN=8;
static size_t choose( size_t n )
{
	if( pos<tree.size() ) { auto& c=tree[pos++]; if( c.n!=n ) { c.n=n; if( c.v>=n ) c.v=n-1; } return c.v; }
	tree.push_back( { 0, pos<maxBranch?n:1 } ); pos++;
	return 0;
}
static bool next() { pos=0; while( !tree.empty() ) { if( tree.back().v+1 < tree.back().n ) { tree.back().v++; return true; } tree.pop_back(); } return false; }
struct RV { operator int() const { return (int)choose( unknownN ); } };
}
namespace std {
inline mcr::RV mc_rand() { return mcr::RV(); }
}
namespace mcr { template<class I> inline size_t operator%( const RV&, I n ) { return choose( (size_t)n ); } }
inline mcr::RV mc_rand() { return mcr::RV(); }
#define rand mc_rand
#include "homog2d.hpp"
#undef rand

using namespace mc; using geo::Poly;
using namespace h2d;

struct Ref { double x,y,r; };
/// exact smallest enclosing circle: smallest of the circles of two or three points that holds all
static Ref mec( const Poly& p )
{
	bool have=false; Q bx,by,br;
	auto tryc=[&]( Q cx, Q cy, Q r2 )
	{
		if( have && !(r2<br) ) return;
		for( auto& q: p ) { Q dx=Q(q.x)-cx, dy=Q(q.y)-cy; if( dx*dx+dy*dy > r2 ) return; }
		have=true; bx=cx; by=cy; br=r2;
	};
	std::set<IP> s(p.begin(),p.end()); std::vector<IP> v(s.begin(),s.end());
	for( size_t i=0;i<v.size();i++ ) for( size_t j=i+1;j<v.size();j++ )
	{
		tryc( Q::of(v[i].x+v[j].x,2), Q::of(v[i].y+v[j].y,2), Q::of(d2(v[i],v[j]),4) );
		for( size_t k=j+1;k<v.size();k++ )
		{
			ll D=2*cross(v[i],v[j],v[k]); if( D==0 ) continue;
			ll bx_=v[j].x-v[i].x, by_=v[j].y-v[i].y, cx_=v[k].x-v[i].x, cy_=v[k].y-v[i].y;
			Q ux=Q::of( cy_*(bx_*bx_+by_*by_)-by_*(cx_*cx_+cy_*cy_), D ), uy=Q::of( bx_*(cx_*cx_+cy_*cy_)-cx_*(bx_*bx_+by_*by_), D );
			tryc( ux+Q(v[i].x), uy+Q(v[i].y), ux*ux+uy*uy );
		}
	}
	return { bx.v(), by.v(), std::sqrt(br.v()) };
}
template<class T> std::vector<Point2d_<T>> cv( const Poly& p, const geo::Emb& e ) { std::vector<Point2d_<T>> v; for( auto& q: p ) v.emplace_back( (T)e.X(q.x,q.y), (T)e.Y(q.x,q.y) ); return v; }

/// one point list, every choice sequence
template<class T>
void one( const Poly& p, const geo::Emb& e, int kind, size_t branch=1000 )
{
	run( [&]{
		auto v=cv<T>(p,e);
		bool same=true; for( auto& q: p ) if( q!=p[0] ) same=false;
		if( same )
		{
			Circle_<T> c( Point2d_<T>(3,4), 5 );
			mcr::tree.clear(); mcr::pos=0; mcr::maxBranch=0;
			check( thrown([&]{ c.set(v); })==1, "identical", "identical points accepted" );
			check( c.center()==Point2d_<T>(3,4) && c.radius()==5, "identical", "object modified by a refused call" );
			check( thrown([&]{ Circle_<T> z( Point2d_<T>(1,1), 0. ); })==1, "checks", "radius checking is off after a refused call" );
			return;
		}
		Ref m=mec(p); double R=m.r*e.s, X=e.X(m.x,m.y), Y=e.Y(m.x,m.y);
		double tol = ( sizeof(T)==4 ? 2e-5 : 1e-9 ) * ( std::fabs(X)+std::fabs(Y)+R+1 );
		mcr::tree.clear(); mcr::maxBranch=branch; mcr::unknownN=p.size();
		uint64_t paths=0;
		do
		{
			mcr::pos=0; paths++; step();
			auto how=[&]{ std::string s="choices"; for( size_t i=0;i<mcr::tree.size();i++ ) s+=str(' ',mcr::tree[i].v); return s; };
			Circle_<T> c;
			try
			{
				if( kind==0 ) { Circle_<T> z(v); c=z; }
				else if( kind==1 ) { std::list<Point2d_<T>> l(v.begin(),v.end()); c.set(l); }
				else if( kind==2 && v.size()==3 ) { std::array<Point2d_<T>,3> a{v[0],v[1],v[2]}; c=Circle_<T>(a); }
				else if( kind==2 && v.size()==4 ) { std::array<Point2d_<T>,4> a{v[0],v[1],v[2],v[3]}; c.set(a); }
				else c.set(v);
			}
			catch( const std::exception& x ) { check( false, "throws", [&]{ return str( "exception: ",x.what(),"; ",how() ); } ); break; }
			bool in=true; for( auto& q: v ) if( std::hypot( (double)q.getX()-c.center().getX(), (double)q.getY()-c.center().getY() ) > (double)c.radius()+tol ) in=false;
			if( !check( in, "encloses", [&]{ return str( c," does not hold all the points; ",how() ); } ) ) break;
			if( !check( std::fabs(c.radius()-R)<=tol && std::fabs(c.center().getX()-X)<=std::sqrt(tol*R)*(1e-2) + tol && std::fabs(c.center().getY()-Y)<=std::sqrt(tol*R)*1e-2+tol,
				"minimal", [&]{ return str( c,", expected center ",X,',',Y," radius ",R,"; ",how() ); } ) ) break;
		}
		while( mcr::next() );
		check( !thr::doNotCheckRadius() && thrown([&]{ Circle_<T> z( Point2d_<T>(1,1), 0. ); })==1, "checks", "radius checking is off afterwards" );
		thr::doNotCheckRadius()=false;
		outcome( mix( hd(R), mix(hd(X),hd(Y)) ) );
	}, [&]{ return str( p,' ',e.name,kind==0?" vector":kind==1?" list":" array" ); } );
	thr::doNotCheckRadius()=false;
}

int main( int argc, char** argv )
{
	init( argc, argv );
	auto& E=geo::embeddings();
	geo::Emb far{0.7,15000.3,-22000.6,false,false,"far"};
	std::vector<geo::Emb> all(E.begin(),E.end()); all.push_back(far); for( auto& t: geo::tilted({}) ) all.push_back(t);
	auto g33=geo::grid(0,0,2,2), g43=geo::grid(0,0,3,2), g23=geo::grid(0,0,1,2);
	for( auto& e: all )
	{
		section( str("n2-",e.name) ); geo::sequences( g33, 2, false, false, [&]( const Poly& p ) { one<double>(p,e,0); } );
		section( str("n3-",e.name) ); geo::sequences( g43, 3, false, false, [&]( const Poly& p ) { one<double>(p,e,0); } );
		section( str("n4-",e.name) ); geo::sequences( g33, 4, false, false, [&]( const Poly& p ) { one<double>(p,e,0); } );
	}
	section( "kinds" );
	for( int k: {1,2} ) { geo::sequences( g33, 3, false, false, [&]( const Poly& p ) { one<double>(p,E[0],k); } ); geo::sequences( g23, 4, false, false, [&]( const Poly& p ) { one<double>(p,E[3],k); } ); }
	geo::sequences( g33, 2, false, false, [&]( const Poly& p ) { one<double>(p,E[0],1); } );
	section( "float" ); for( int k: {0,1,3} ) geo::sequences( g33, 3, false, false, [&]( const Poly& p ) { one<float>(p,E[k],0); } ); geo::sequences( g23, 4, true, false, [&]( const Poly& p ) { one<float>(p,E[0],0); } );
	section( "long double" ); for( int k: {0,1,3} ) geo::sequences( g33, 3, false, false, [&]( const Poly& p ) { one<long double>(p,E[k],0); } ); geo::sequences( g23, 4, true, false, [&]( const Poly& p ) { one<long double>(p,E[0],0); } );
	section( "n4-distinct-4x3" ); geo::subsets( g43, 4, [&]( const Poly& p ) { for( auto& e: all ) one<double>(p,e,0); } );
	section( "n5" ); geo::subsets( g33, 5, [&]( const Poly& p ) { one<double>(p,E[0],0); if( thorough() ) for( auto& e: all ) one<double>(p,e,0); } );
	section( "n5-partial" ); geo::subsets( g43, 5, [&]( const Poly& p ) { one<double>(p,E[3],0,6); one<double>(p,far,0,5); } );
	section( "n6-partial" ); geo::subsets( g33, 6, [&]( const Poly& p ) { for( int k: {0,3,5} ) one<double>(p,E[k],0,thorough()?8:6); } );
	section( "n9-partial" ); { Poly p=g33; for( auto& e: all ) one<double>(p,e,0,thorough()?7:5); }
	section( "cocircular" );       // many points of one circle: every tie in the inside test
	for( auto& e: all ) { Poly p{{5,0},{4,3},{3,4},{0,5},{-3,4},{-4,3},{-5,0},{-4,-3},{-3,-4},{0,-5},{3,-4},{4,-3}}; one<double>(p,e,0,4); p.push_back({0,0}); p.push_back({1,2}); one<double>(p,e,0,4);
		geo::subsets( {{5,0},{4,3},{3,4},{0,5},{-3,4},{-4,3},{-5,0},{-4,-3},{0,-5},{3,-4}}, 4, [&]( const Poly& q ) { one<double>(q,e,0); } ); }
	section( "thin" );             // acute triangles with a very short side, alone or among other points
	for( ll L: {10,100,1000,10000} ) for( ll w: {1,2,3} ) for( auto& e: {E[0],E[2],E[3]} ) for( int extra=0; extra<4; extra++ )
	{
		Poly p{{0,0},{L,w},{L,-w}}; if( extra&1 ) p.push_back( {L/2,0} ); if( extra&2 ) p.push_back( {L,0} );
		std::sort( p.begin(), p.end() );
		do one<double>(p,e,0,p.size()<5?1000:2); while( std::next_permutation( p.begin(), p.end() ) );
	}
	section( "nearly-right" );     // triangles (and more points) with an angle just below, at or just above 90 degrees
	for( ll L: {100,1000,2000} ) for( ll d=-2;d<=2;d++ ) for( ll f: {-1,0,3} ) for( auto& e: {E[0],E[3]} ) for( int extra=0; extra<4; extra++ )
	{
		Poly p{{0,0},{L,d},{f,2*L}}; if( extra&1 ) p.push_back( {L/2,L} ); if( extra&2 ) p.push_back( {L,2*L-1} );
		std::sort( p.begin(), p.end() );
		do one<double>(p,e,0,p.size()<5?1000:2); while( std::next_permutation( p.begin(), p.end() ) );
	}
	section( "large" );
	for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) ) for( size_t k: {0,5,n-1,n+3} ) for( int ei: {0,3} ) if( n<40 ) one<double>( geo::listing(p,k%(2*p.size())), E[ei], 0, 1 );
	section( "few" );
	run( [&]{
		Circle_<double> c( Point2d_<double>(3,4), 5 );
		std::vector<Point2d_<double>> v; check( thrown([&]{ c.set(v); })==1, "few", "empty container accepted" );
		v.emplace_back(1,2); check( thrown([&]{ c.set(v); })==1, "few", "single point accepted" );
		check( thrown([&]{ Circle_<double> z(v); })==1, "few", "single point accepted" );
		check( c.center()==Point2d_<double>(3,4) && c.radius()==5, "few", "object modified by a refused call" );
	}, [&]{ return "too few points"; } );
	return finish();
}
