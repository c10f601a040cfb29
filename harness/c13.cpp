// C13: polygon measures, independent of the vertex listing
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc;

struct Ref { bool simple, convex; double area, cx, cy, len; };
static Ref ref( const Poly& p )
{
	Ref r{}; size_t n=p.size();
	r.simple=geo::isSimple(p);
	r.convex = r.simple && isConvexSimple(p);
	for( size_t i=0;i<n;i++ ) r.len += std::sqrt( (double)d2(p[i],p[(i+1)%n]) );
	if( r.simple )
	{
		ll a=area2(p), sx=0, sy=0;
		for( size_t i=0;i<n;i++ ) { auto&u=p[i];auto&v=p[(i+1)%n]; ll c=u.x*v.y-u.y*v.x; sx+=(u.x+v.x)*c; sy+=(u.y+v.y)*c; }
		r.area=std::abs(a)/2.; r.cx=sx/(3.*a); r.cy=sy/(3.*a);
	}
	return r;
}
template<class FPT>
void measure( const h2d::CPolyline_<FPT>& pl, const Poly& p, const Ref& r, const Emb& e, const char* when )
{
	const bool away=std::fabs(e.ty)>1e6 && e.s<10;                  // coordinates in the millions: only 9 or so decimals are left
	double tol = sizeof(FPT)==4 ? 1e-5 : away ? 1e-7 : 1e-9;
	step(8);
	bool s=pl.isSimple();
	if( !check( s==r.simple, "isSimple", [&]{ return str(when,": isSimple=",s," expected ",r.simple); } ) ) return;
	check( h2d::isSimple(pl)==r.simple, "isSimple", "free function" );
	double a=pl.area(), L=pl.length();
	const double A0=r.area*e.s*e.s*e.det(); double L0=r.len*e.s; if( e.m00!=1 || e.m01!=0 || e.m10!=0 || e.m11!=1 ) { L0=0; for( size_t i=0;i<p.size();i++ ) { auto&u=p[i]; auto&v=p[(i+1)%p.size()]; L0+=std::hypot( e.X(u.x,u.y)-e.X(v.x,v.y), e.Y(u.x,u.y)-e.Y(v.x,v.y) ); } }
	check( near(a, A0, tol), "area", [&]{ return str(when,": area=",a," expected ",A0); } );
	check( near(h2d::area(pl), A0, tol), "area", "free function" );
	check( near(L, L0, tol), "length", [&]{ return str(when,": length=",L," expected ",L0); } );
	bool c=pl.isConvex();
	check( c==r.convex, "isConvex", [&]{ return str(when,": isConvex=",c," expected ",r.convex); } );
	if( r.simple )
	{
		auto g=pl.centroid();
		double ex=e.X(r.cx,r.cy), ey=e.Y(r.cx,r.cy);
		double k=away ? 1e-6 : std::max({1.,std::fabs(ex)/100,std::fabs(ey)/100})*tol*10;
		check( std::fabs(g.getX()-ex)<k && std::fabs(g.getY()-ey)<k, "centroid", [&]{ return str(when,": centroid=",g," expected ",ex,",",ey); } );
		outcome( mix(hd(a),mix(hd(g.getX()),c)) );
	}
	else
	{
		check( thrown([&]{ pl.centroid(); })==1, "centroid", [&]{ return str(when,": centroid of a non simple polyline does not throw"); } );
		outcome( hd(L) );
	}
	check( pl.nbSegs()==p.size() && pl.size()==p.size() && pl.isClosed(), "nbSegs" );
	// extreme points: coordinates are those of the reference, with the documented tie-break
	auto X=[&](const IP&q){return (double)(FPT)e.X(q.x,q.y);}; auto Y=[&](const IP&q){return (double)(FPT)e.Y(q.x,q.y);};
	auto best=[&]( auto less ) { IP b=p[0]; for( auto& q: p ) if( less(q,b) ) b=q; return b; };
	struct { const char* n; IP q; h2d::Point2d_<FPT> got; } ext[]={
		{"top",    best([&](auto&a,auto&b){return Y(a)!=Y(b)?Y(a)>Y(b):X(a)<X(b);}), pl.getTmPoint()},
		{"bottom", best([&](auto&a,auto&b){return Y(a)!=Y(b)?Y(a)<Y(b):X(a)<X(b);}), pl.getBmPoint()},
		{"left",   best([&](auto&a,auto&b){return X(a)!=X(b)?X(a)<X(b):Y(a)<Y(b);}), pl.getLmPoint()},
		{"right",  best([&](auto&a,auto&b){return X(a)!=X(b)?X(a)>X(b):Y(a)<Y(b);}), pl.getRmPoint()} };
	for( auto& x: ext )
		check( near(x.got.getX(),X(x.q),tol) && near(x.got.getY(),Y(x.q),tol), "extreme", [&]{ return str(when,": ",x.n," point=",x.got); } );
}
template<class FPT>
void one( const Poly& p, const Emb& e, bool others )
{
	run( [&]
	{
		Ref r=ref(p);
		std::vector<h2d::Point2d_<FPT>> v; for( auto& q: p ) v.emplace_back( (FPT)e.X(q.x,q.y), (FPT)e.Y(q.x,q.y) );
		h2d::CPolyline_<FPT> pl(v);
		measure( pl, p, r, e, "fresh" );
		h2d::CPolyline_<FPT> p2(v), p3(v), p4(v);
		bool eq = (pl==p2); (void)eq; step();                   // comparing must not change any answer
		measure( pl, p, r, e, "after comparison" );
		bool ne = (p3!=h2d::CPolyline_<FPT>( std::vector<h2d::Point2d_<FPT>>{ {0,0},{1,0},{0,1} } )); (void)ne; step();
		measure( p3, p, r, e, "compared first" );
		if( others )
		{
			h2d::OPolyline_<FPT> po(v);
			step(4);
			check( !po.isSimple() && po.area()==0 && !po.isConvex() && po.nbSegs()==p.size()-1 && !po.isClosed(), "open" );
			check( thrown([&]{ po.centroid(); })==1, "open", "centroid of an open polyline does not throw" );
			double L=0; for( size_t i=0;i+1<p.size();i++ ) L+=std::sqrt((double)d2(p[i],p[i+1]));
			check( near(po.length(),L*e.s,sizeof(FPT)==4?1e-5:1e-9), "open-length" );
		}
	}, [&]{ return str( e.name, sizeof(FPT)==4?" float ":sizeof(FPT)==8?" double ":" long ", p ); } );
}
static bool legal( const Poly& p ) { for( size_t i=0;i<p.size();i++ ) if( p[i]==p[(i+1)%p.size()] ) return false; return true; }

int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=embeddings(); const auto S=skewed({}); bool th=thorough();
	section("3x3-all-listings");
	for( size_t n=3;n<=(th?6:5);n++ )
		sequences( grid(0,0,2,2), n, true, false, [&]( const Poly& p ) { one<double>( p, E[0], n<=4 ); } );
	section("3x3-repeated-vertices");
	for( size_t n=4;n<=(th?6:5);n++ )
		sequences( grid(0,0,2,2), n, false, true, [&]( const Poly& p )
		{
			if( !legal(p) ) return;
			auto q=p; std::sort(q.begin(),q.end()); if( std::adjacent_find(q.begin(),q.end())==q.end() ) return;
			one<double>( p, E[0], false );
		} );
	section("4x4-embedded");
	for( size_t n=3;n<=(th?6:5);n++ )
	{
		uint64_t c=0;
		sequences( grid(0,0,3,3), n, true, true, [&]( const Poly& p )
		{
			c++;
			size_t k=(c*7)%(2*n);
			one<double>( listing(p,k), E[c%3], false );                     // exact embeddings: everything decidable
			if( !geo::isSimple(p) ) return;
			bool strict=true; for( size_t i=0;i<n;i++ ) if( cross(p[i],p[(i+1)%n],p[(i+2)%n])==0 ) strict=false;
			if( n<=4 || th || c%4==0 ) one<double>( listing(p,(k+3)%(2*n)), E[3+c%2], false );   // collinear vertices included: rounding must not change the answer
			if( strict && (n<=4||th) ) { one<float>( listing(p,(k+1)%(2*n)), E[1], false ); one<long double>( listing(p,(k+2)%(2*n)), E[5], false ); }
		} );
	}
	section("far");                                  // far from the origin compared to their size
	{
		const std::vector<Emb> F{ { 0.7,20000.3,-15000.6,false,false,"far" }, { 0.7,500000.3,4500000.6,false,false,"utm" }, { 1.3,-4500000.1,3e6,true,false,"utm-swapped" } };
		for( size_t n=3;n<=(th?6:5);n++ )
		{
			uint64_t c=0;
			sequences( n<6?grid(0,0,3,3):grid(0,0,2,2), n, true, true, [&]( const Poly& p )
			{
				c++;
				bool strict=true; for( size_t i=0;i<n;i++ ) for( size_t j=0;j<i;j++ ) for( size_t k=0;k<j;k++ ) if( cross(p[i],p[j],p[k])==0 ) strict=false;
				if( n==5 && !th && c%3 ) return;
				if( strict || geo::isSimple(p) ) one<double>( listing(p,(c*5)%(2*n)), F[0], false );
				if( strict ) { one<double>( listing(p,(c*3)%(2*n)), F[1+c%2], false ); if( n<5 ) one<long double>( listing(p,c%(2*n)), F[2-c%2], false ); }
			} );
		}
	}
	section("nearly-straight");                      // a vertex slightly (but more than the threshold) inside or outside a long edge
	for( double L: {2.,1000.,30000.} ) for( double d: {1e-2,1e-4,1e-6,1e-7} ) for( int k=0;k<24;k++ ) for( int side=-1;side<2;side+=2 ) for( double at: {0.5,0.1,0.93} ) for( int rot=0;rot<5;rot++ ) for( int rev=0;rev<2;rev++ )
		run( [&]
		{
			double c=std::cos(k*M_PI/12+1e-3), s=std::sin(k*M_PI/12+1e-3);
			std::vector<std::pair<double,double>> q{ {0,0},{L*at,-side*d},{L,0},{L,L},{0,L} };
			std::rotate( q.begin(), q.begin()+rot, q.end() ); if( rev ) std::reverse( q.begin(), q.end() );
			std::vector<h2d::Point2d> v; for( auto& x: q ) v.emplace_back( c*x.first-s*x.second+0.3, s*x.first+c*x.second-1.7 );
			h2d::CPolyline p(v); step(4);
			check( p.isSimple(), "isSimple" );
			check( p.isConvex()==(side>0), "isConvex", [&]{ return str("isConvex=",p.isConvex()," expected ",side>0); } );
			double A=L*L+side*d*L/2;
			check( std::fabs(p.area()-A)<=1e-13*L*L*10, "area", [&]{ return str("area=",p.area()," expected ",A); } );
			outcome( mix(hd(p.area()),p.isConvex()) );
		}, [&]{ return str("square ",L," with a vertex at ",side*d," turned by ",k,"*15 deg, at ",at," listing ",rot,rev); } );
	section("nearly-special");
	for( size_t n=3;n<=(th?6:5);n++ )
	{
		uint64_t c=0;
		sequences( n<5?grid(0,0,3,3):grid(0,0,2,2), n, true, true, [&]( const Poly& p )
		{
			c++;
			bool strict=true; for( size_t i=0;i<n;i++ ) for( size_t j=0;j<i;j++ ) for( size_t k=0;k<j;k++ ) if( cross(p[i],p[j],p[k])==0 ) strict=false;
			if( !geo::isSimple(p) && !strict ) return;
			for( size_t k=0;k<S.size();k++ ) if( n<5 || th || k==c%S.size() ) one<double>( listing(p,(c*7)%(2*n)), S[k], false );
		} );
	}
	section("flat");                                  // no two edges make an angle larger than 2e-4 rad (or nearly so when turned)
	{
		const std::vector<Emb> F=flattened();
		for( size_t n=3;n<=(th?6:5);n++ )
		{
			uint64_t c=0;
			sequences( n<6?grid(0,0,3,3):grid(0,0,2,2), n, true, true, [&]( const Poly& p )
			{
				c++;
				bool strict=true; for( size_t i=0;i<n;i++ ) for( size_t j=0;j<i;j++ ) for( size_t k=0;k<j;k++ ) if( cross(p[i],p[j],p[k])==0 ) strict=false;
				if( n==5 && !th && c%3 ) return;
				one<double>( listing(p,(c*5)%(2*n)), F[c%2], false );
				if( strict ) one<double>( listing(p,(c*3)%(2*n)), F[2], false );
			} );
		}
	}
	section("polyominoes");
	for( auto& p: polyominoes(3,3) )
		for( size_t k=0;k<2*p.size();k++ ) { one<double>( listing(p,k), E[0], false ); one<double>( listing(p,k), E[4], false ); }
	section("6x6-convex");                          // convex chains with many vertices, all listings
	{
		Poly circle{ {2,0},{4,0},{6,2},{6,4},{4,6},{2,6},{0,4},{0,2},{3,0},{6,3},{3,6},{0,3} };
		for( int m=0;m<(1<<12);m++ )
		{
			Poly s; for( int i=0;i<12;i++ ) if( m>>i&1 ) s.push_back(circle[i]);
			if( s.size()<3 ) continue;
			double mx=0,my=0; for(auto&q:s){mx+=q.x;my+=q.y;} mx/=s.size();my/=s.size();
			std::sort(s.begin(),s.end(),[&](auto&a,auto&b){return std::atan2(a.y-my,a.x-mx)<std::atan2(b.y-my,b.x-mx);});
			for( size_t k=0;k<2*s.size();k+=(th?1:5) ) one<double>( listing(s,k), E[k%5], false );
		}
	}
	section("large");
	for( int n: bigSizes() ) for( auto& p: big(n) ) for( size_t k: {0,5,n-1,n+3} ) for( int ei: {0,3} ) one<double>( listing(p,k%(2*p.size())), E[ei], k==0 );
	for( int n: bigSizes() ) for( auto p: big(n) ) for( size_t i=0;i<p.size();i++ ) { std::swap( p[i], p[(i+p.size()/2)%p.size()] ); if( legal(p) ) one<double>( p, E[0], false ); std::swap( p[i], p[(i+p.size()/2)%p.size()] ); }
	return finish();
}
