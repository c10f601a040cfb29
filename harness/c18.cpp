// C18: the convex hull is the smallest convex polygon holding the points.
#include "geo.hpp"
#include <list>
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using namespace h2d;

/// verifies a hull against the exact one. exact: coordinates represent the grid without rounding
template<class PLx,class T>
void verify( const PLx& ch, const Poly& in, const geo::Emb& e, const char* how )
{
	Poly ref=geo::hull(in);
	auto show=[&]{ return str( how," gives ",ch,", expected (unplaced) ",ref ); };
	bool back=true; Poly r;
	for( auto& q: ch.getPts() )
	{
		bool f=false; for( auto& p: in ) if( !f && (T)q.getX()==(T)e.X(p.x,p.y) && (T)q.getY()==(T)e.Y(p.x,p.y) ) { f=true; r.push_back(p); }
		if( !f ) back=false;
	}
	if( !check( back, "vertex", show ) ) return;                    // vertices are input points
	std::set<IP> s(r.begin(),r.end());
	if( !check( s.size()==r.size(), "repeated", show ) ) return;
	Poly core=r;
	if( !e.exact || sizeof(T)==4 )
	{	// rounding may bend a straight run: a vertex lying on an edge of the exact hull is then accepted
		core.clear(); for( auto& p: r ) if( std::find(ref.begin(),ref.end(),p)!=ref.end() ) core.push_back(p); else { bool on=false; for( size_t i=0;i<ref.size();i++ ) on|=geo::onSeg(ref[i],ref[(i+1)%ref.size()],p); if(!on) { check(false,"inner",show); return; } }
		check( geo::isConvexSimple(r), "convex", show );
	}
	if( !check( core.size()==ref.size(), "missing", show ) ) return;
	// cyclic order, either direction
	bool ok=false; for( size_t k=0;k<2*ref.size()&&!ok;k++ ) ok = geo::listing(ref,k)==core;
	check( ok, "order", show );
	if( core.size()==r.size() ) check( ch.isConvex(), "isConvex", show );
	uint64_t h=0; for( auto& p: ref ) h=mix(h,mix(p.x,p.y)); outcome(h);
}
template<class T> std::vector<Point2d_<T>> cv( const Poly& p, const geo::Emb& e ) { std::vector<Point2d_<T>> v; for( auto& q: p ) v.emplace_back( (T)e.X(q.x,q.y), (T)e.Y(q.x,q.y) ); return v; }

static bool flat( const Poly& p ) { for( size_t i=0;i<p.size();i++ ) for( size_t j=i+1;j<p.size();j++ ) for( size_t k=j+1;k<p.size();k++ ) if( cross(p[i],p[j],p[k]) ) return false; return true; }

template<class T>
void one( const Poly& p, const geo::Emb& e )
{
	run( [&]{
		auto v=cv<T>(p,e); auto v0=v;
		step();
		if( flat(p) )
		{	// no hull polygon: nothing is claimed but a normal return or the documented exception
			int t=thrown([&]{ auto c=convexHull(v); (void)c.size(); });
			check( t<2, "degenerate", "unexpected exception type" );
			Poly s=p; std::sort(s.begin(),s.end()); s.erase(std::unique(s.begin(),s.end()),s.end());
			if( e.exact && s.size()>=2 && sizeof(T)>4 )        // aligned points: the two extreme ones
			{
				auto c=convexHull(v); bool ok=c.size()==2;
				if( ok ) { auto& q=c.getPts(); auto a=cv<T>( {s.front(),s.back()}, e ); ok = ( q[0]==a[0] && q[1]==a[1] ) || ( q[0]==a[1] && q[1]==a[0] ); }
				check( ok, "aligned", [&]{ return str( c ); } );
			}
			outcome(t); return;
		}
		auto ch=convexHull(v);
		check( v==v0, "input", "the input was modified" );
		verify<decltype(ch),T>( ch, p, e, "vector" );
	}, [&]{ return str( p,' ',e.name ); } );
}
template<class T>
void kinds( const Poly& p, const geo::Emb& e )
{
	if( flat(p) ) return;
	run( [&]{
		auto v=cv<T>(p,e);
		auto ch=convexHull(v); step(6);
		verify<decltype(ch),T>( ch, p, e, "vector" );
		std::list<Point2d_<T>> l(v.begin(),v.end()); auto c2=convexHull(l); verify<decltype(c2),T>( c2, p, e, "list" ); check( c2==ch, "kinds", "list differs from vector" );
		if( v.size()==4 ) { std::array<Point2d_<T>,4> a; std::copy(v.begin(),v.end(),a.begin()); auto c3=convexHull(a); verify<decltype(c3),T>( c3, p, e, "array" ); }
		bool cons=false; for( size_t i=0;i<p.size();i++ ) if( p[i]==p[(i+1)%p.size()] ) cons=true;
		if( !cons )
		{
			CPolyline_<T> c(v); OPolyline_<T> o(v);
			auto h1=convexHull(c), h2=convexHull(o), h3=c.convexHull(), h4=o.convexHull();
			for( auto* h: {&h1,&h2,&h3,&h4} ) verify<decltype(h1),T>( *h, p, e, "polyline" );
			auto h5=h1.convexHull(); verify<decltype(h1),T>( h5, p, e, "hull of hull" );
		}
	}, [&]{ return str( "kinds ",p,' ',e.name ); } );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	auto& E=geo::embeddings();
	geo::Emb far{0.7,15000.3,-22000.6,false,false,"far"};
	auto g33=geo::grid(0,0,2,2), g43=geo::grid(0,0,3,2), g23=geo::grid(0,0,1,2);
	std::vector<geo::Emb> all(E.begin(),E.end()); all.push_back(far); for( auto& t: geo::skewed({}) ) all.push_back(t); for( auto& t: geo::flattened() ) all.push_back(t);
	for( auto& e: all )
	{
		section( str("sequences-",e.name) );
		for( size_t n=1;n<=4;n++ ) geo::sequences( g33, n, false, false, [&]( const Poly& p ) { one<double>(p,e); } );    // every order, with repetitions
		geo::sequences( g23, 5, false, false, [&]( const Poly& p ) { one<double>(p,e); } );
		if( e.name==std::string("unit") || e.name==std::string("decimal") || thorough() ) { geo::sequences( g33, 5, false, false, [&]( const Poly& p ) { one<double>(p,e); } ); geo::sequences( g23, 6, false, false, [&]( const Poly& p ) { one<double>(p,e); } ); }
		section( str("subsets-",e.name) );                     // every subset of the grid in index order, reversed and interleaved
		for( int m=1;m<(1<<12);m++ )
		{
			Poly p; for( int i=0;i<12;i++ ) if( m>>i&1 ) p.push_back( g43[i] );
			one<double>(p,e); one<double>( geo::reversed(p), e );
			Poly q; for( size_t i=0;i<p.size();i+=2 ) q.push_back(p[i]); for( size_t i=1;i<p.size();i+=2 ) q.push_back(p[i]); one<double>(q,e);
			Poly d=p; d.insert(d.end(),p.begin(),p.end()); one<double>(d,e);      // everything twice
		}
		section( str("subsets16-",e.name) );
		if( e.name==std::string("unit") || e.name==std::string("decimal") || thorough() )
		{
			auto g44=geo::grid(0,0,3,3);
			for( int m=1;m<(1<<16);m++ ) { Poly p; for( int i=0;i<16;i++ ) if( m>>i&1 ) p.push_back( g44[(i*5)%16] ); one<double>(p,e); }
		}
		section( str("runs-",e.name) );                        // long collinear runs in every order of start
		for( auto& base: std::vector<Poly>{ {{0,0},{1,0},{2,0},{3,0},{4,0},{5,0},{0,3}}, {{0,0},{1,1},{2,2},{3,3},{4,4},{5,5},{5,0}}, {{0,0},{0,1},{0,2},{0,3},{0,4},{-3,4},{-6,4}}, {{0,0},{-1,2},{-2,4},{-3,6},{4,1},{8,2},{12,3}} } )
		{
			Poly p=base; std::sort(p.begin(),p.end());
			do one<double>(p,e); while( std::next_permutation(p.begin(),p.end()) );
		}
		section( str("kinds-",e.name) );
		geo::sequences( g23, 4, false, false, [&]( const Poly& p ) { kinds<double>(p,e); } );
		geo::sequences( g23, 5, false, false, [&]( const Poly& p ) { kinds<double>(p,e); } );
	}
	for( int k: {0,1,3} )
	{
		section( "float" ); geo::sequences( g33, 4, false, false, [&]( const Poly& p ) { one<float>(p,E[k]); } ); geo::sequences( g23, 4, true, false, [&]( const Poly& p ) { kinds<float>(p,E[k]); } );
		section( "long double" ); geo::sequences( g33, 4, false, false, [&]( const Poly& p ) { one<long double>(p,E[k]); } ); geo::sequences( g23, 4, true, false, [&]( const Poly& p ) { kinds<long double>(p,E[k]); } );
	}
	section( "rounded-copies" );                               // every point comes with a copy one or a few units in the last place away
	for( auto& e: { E[3], E[4], far } ) for( int m=1;m<512;m++ ) for( int pat=0;pat<8;pat++ ) for( int pos=0;pos<3;pos++ )
	{
		Poly p; for( int i=0;i<9;i++ ) if( m>>i&1 ) p.push_back( g33[i] );
		if( flat(p) ) continue;
		run( [&]{
			auto v=cv<double>(p,e); std::vector<Point2d_<double>> w, c;
			for( size_t i=0;i<v.size();i++ ) { double x=v[i].getX(), y=v[i].getY(); int d=(pat+i)%8; static const int DX[]={1,1,0,-1,-1,-1,0,1}, DY[]={0,1,1,1,0,-1,-1,-1};
				for( int k=0;k<3;k++ ) { if( DX[d] ) x=std::nextafter(x,DX[d]*1e30); if( DY[d] ) y=std::nextafter(y,DY[d]*1e30); } c.emplace_back(x,y); }
			if( pos==0 ) { w=v; w.insert(w.end(),c.begin(),c.end()); } else if( pos==1 ) { w=c; w.insert(w.end(),v.begin(),v.end()); } else for( size_t i=0;i<v.size();i++ ) { w.push_back(v[i]); w.push_back(c[i]); }
			auto ch=convexHull(w); step();
			Poly r, ref=geo::hull(p); bool ok=true;
			for( auto& q: ch.getPts() ) { bool f=false; for( size_t i=0;i<v.size()&&!f;i++ ) if( q==v[i] ) { f=true; r.push_back(p[i]); } ok=ok&&f; }
			auto show=[&]{ return str( "hull is ",ch,", expected (unplaced) ",ref ); };
			if( !check( ok && std::set<IP>(r.begin(),r.end()).size()==r.size(), "repeated", show ) ) return;
			Poly core; for( auto& q: r ) if( std::find(ref.begin(),ref.end(),q)!=ref.end() ) core.push_back(q);
			bool cyc=core.size()==ref.size(); if( cyc ) { cyc=false; for( size_t k=0;k<2*ref.size()&&!cyc;k++ ) cyc=geo::listing(ref,k)==core; }
			check( cyc && geo::isConvexSimple(r), "hull", show );
			outcome( mix(m,r.size()) );
		}, [&]{ return str( p,' ',e.name,", copies shifted by pattern ",pat," placed ",pos ); } );
	}
	section( "big" );                                          // circles of many points, every starting point, with inner points
	for( int n: {3,5,8,13,40,200} ) for( int k=0;k<std::min(n,40);k++ ) for( int dir: {0,1} )
	run( [&]{
		std::vector<Point2d_<double>> v,c; for( int i=0;i<n;i++ ) { double a=2*M_PI*((i+k)%n)/n*(dir?1:-1); c.emplace_back( 7+50*std::cos(a), -3+50*std::sin(a) ); v.push_back(c.back()); v.emplace_back( 7+20*std::cos(a*3), -3+10*std::sin(a) ); }
		if( n<5 ) v=c;
		auto ch=convexHull(v); step();
		check( ch==CPolyline_<double>(c), "circle", [&]{ return str( "hull of ",n," circle points has ",ch.size()," vertices" ); } );
		outcome( ch.size() );
	}, [&]{ return str( n," points on a circle, start ",k," dir ",dir ); } );
	section( "few" );
	run( [&]{ std::vector<Point2d_<double>> v; check( convexHull(v).size()==0, "empty", "" ); CPolyline_<double> c; check( convexHull(c).size()==0 && c.convexHull().size()==0, "empty", "" ); step(3); }, [&]{ return "empty"; } );
	return finish();
}
