// C11: point in polygon
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc;

template<class FPT, class PolyT>
PolyT mk( const Poly& p, const Emb& e )
{
	std::vector<h2d::Point2d_<FPT>> v;
	for( auto& q: p ) v.emplace_back( (FPT)e.X(q.x,q.y), (FPT)e.Y(q.x,q.y) );
	return PolyT(v);
}

// polygon p in coordinates doubled by 2 w.r.t. the grid step, so that half-grid queries stay integer
template<class FPT>
void onePolygon( const Poly& p, const Emb& e, const std::vector<IP>& queries, bool open )
{
	run( [&]
	{
		bool simple = geo::isSimple(p);
		auto pl = mk<FPT,h2d::CPolyline_<FPT>>( p, e );
		uint64_t h=0;
		for( auto& q: queries )
		{
			int expect = simple ? pip(p,q) : -1;
			if( !e.exact && expect==0 ) continue;                 // boundary undecidable once rounded
			h2d::Point2d_<FPT> pt( (FPT)e.X(q.x,q.y), (FPT)e.Y(q.x,q.y) );
			bool got;
			try { got = pt.isInside( pl ); step(); }
			catch( const std::exception& ex ) { fail("throws",str("query ",q,": ",ex.what())); continue; }
			check( got==(expect==1), simple?"simple":"notsimple", [&]{ return str("query ",q," (doubled grid): isInside=",got," exact position=",expect); } );
			h=mix(h,got);
		}
		outcome(h);
		if( open )
		{
			auto po = mk<FPT,h2d::OPolyline_<FPT>>( p, e );
			for( auto& q: queries )
			{
				h2d::Point2d_<FPT> pt( (FPT)e.X(q.x,q.y), (FPT)e.Y(q.x,q.y) );
				step();
				check( !pt.isInside(po), "open", [&]{ return str("query ",q," inside an open polyline"); } );
			}
		}
	}, [&]{ return str( e.name, sizeof(FPT)==4?" float ":sizeof(FPT)==8?" double ":" long ", "polygon(x2) ", p ); } );
}
static Poly dbl( const Poly& p ) { Poly r; for( auto q: p ) r.push_back({2*q.x,2*q.y}); return r; }

int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=withFar(embeddings()); const auto S=flattened(skewed({}));
	auto q3 = grid(-1,-1,5,5), q4=grid(-1,-1,7,7);
	bool th = thorough();

	section("3x3-all-listings");               // every vertex sequence (simple or not) of 3..n grid points, every listing
	for( size_t n=3;n<=(th?7:5);n++ )
		sequences( grid(0,0,2,2), n, true, false, [&]( const Poly& p ) { onePolygon<double>( dbl(p), E[0], q3, n<=3 ); } );

	section("3x3-canonical-embedded");
	for( size_t n=3;n<=(th?8:6);n++ )
		sequences( grid(0,0,2,2), n, true, true, [&]( const Poly& p )
		{
			if( !geo::isSimple(p) ) return;
			for( size_t k=1;k<E.size();k++ ) onePolygon<double>( dbl(p), E[k], q3, false );
			onePolygon<float>( dbl(p), E[1], q3, false );
			onePolygon<long double>( dbl(p), E[2], q3, false );
		} );

	section("4x4");                            // every simple polygon of the 4x4 grid, four listings
	for( size_t n=3;n<=(th?6:5);n++ )
	{
		uint64_t cnt=0;
		sequences( grid(0,0,3,3), n, true, true, [&]( const Poly& p )
		{
			if( !geo::isSimple(p) ) return;
			cnt++;
			onePolygon<double>( dbl( listing(p,(cnt*5)%(2*n)) ), E[0], q4, false );
			if( th && n<6 ) onePolygon<double>( dbl( listing(p,(cnt*3+1)%(2*n)) ), E[3], q4, false );
		} );
	}
	section("nearly-special");                 // nearly horizontal edges, nearly right angles, nearly rectangles
	for( size_t n=3;n<=(th?6:5);n++ )
	{
		uint64_t cnt=0;
		sequences( n<5?grid(0,0,3,3):grid(0,0,2,2), n, true, true, [&]( const Poly& p )
		{
			if( !geo::isSimple(p) ) return;
			cnt++;
			for( size_t k=0;k<S.size();k++ ) if( n<4 || th || k==cnt%S.size() || p.size()==4&&isConvexSimple(p) ) onePolygon<double>( dbl( listing(p,(cnt*5)%(2*n)) ), S[k], n<5?q4:q3, false );
		} );
	}
	section("near-edges");                     // query points just beside the edges and the vertices
	for( size_t n=3;n<=(th?5:4);n++ )
	{
		uint64_t cnt=0;
		sequences( n<5?grid(0,0,3,3):grid(0,0,2,2), n, true, true, [&]( const Poly& p )
		{
			if( !geo::isSimple(p) ) return;
			cnt++;
			Poly b; for( auto q: listing(p,(cnt*5)%(2*n)) ) b.push_back( {q.x*6000,q.y*6000} );
			std::vector<IP> qs;
			for( size_t i=0;i<n;i++ )
			{
				IP u=b[i], v=b[(i+1)%n]; ll dx=v.x-u.x, dy=v.y-u.y; double L=std::hypot(dx,dy);
				for( int f: {1,3,5} ) for( double h: {1.5,-1.5,12.,-12.} ) qs.push_back( { u.x+dx*f/6+std::llround(-dy*h/L), u.y+dy*f/6+std::llround(dx*h/L) } );
				for( int x=-1;x<=1;x++ ) for( int y=-1;y<=1;y++ ) qs.push_back( {u.x+2*x,u.y+3*y} );
			}
			for( size_t k=0;k<S.size()+2;k++ ) if( n<4 || th || k==cnt%S.size() || k==S.size()+cnt%2 || isConvexSimple(p) )
			{
				Emb e= k<S.size()?S[k]:E[k==S.size()?0:4]; e.s/=6000; e.exact=false;
				onePolygon<double>( b, e, qs, false );
			}
		} );
	}
	section("polyominoes");                    // rectilinear polygons: queries aligned with vertices and edges
	for( auto& p: polyominoes(3,3) )
		for( size_t k=0;k<2*p.size();k++ )
			for( auto* e: {&E[0],&E[2],&E[3]} )
				onePolygon<double>( dbl( listing(p,k) ), *e, q4, false );
	if( th )
		for( auto& p: polyominoes(4,3) )
			for( size_t k=0;k<2*p.size();k+=3 ) onePolygon<double>( dbl( listing(p,k) ), E[1], grid(-1,-1,9,7), false );

	section("combs");                          // many vertices on few lines: the reference segment search must subdivide
	for( int teeth=1; teeth<=(th?12:7); teeth++ )
		for( int hgt=1; hgt<=4; hgt++ )
			for( int shape=0; shape<2; shape++ )
			{
				Poly p; p.push_back({0,0});
				for( int i=0;i<teeth;i++ )
				{
					if( shape==0 ) { p.push_back({4*i,2*hgt}); p.push_back({4*i+2,2*hgt}); p.push_back({4*i+2,2}); if(i+1<teeth) p.push_back({4*i+4,2}); }
					else { p.push_back({4*i+1,2*hgt+2}); p.push_back({4*i+2,2}); }
				}
				if( shape==0 ) { p.pop_back(); p.push_back({4*teeth-2,0}); }
				else p.push_back({4*teeth-2,0});
				Poly c; for( auto& q: p ) if( c.empty() || c.back()!=q ) c.push_back(q);
				if( !geo::isSimple(c) ) continue;
				auto qs = grid(-1,-1,4*teeth+1,2*hgt+3);
				for( size_t k=0;k<2*c.size();k+= (k%3)+1 )
					for( auto* e: {&E[0],&E[4]} ) onePolygon<double>( listing(c,k), *e, qs, false );
			}
	section("blocked");                        // vertices placed on the rays the algorithm looks along, level by level, side by side
	for( int sides=0; sides<16; sides++ )
		for( int level=0; level<=5; level++ )
			for( int mode=0; mode<3; mode++ )
			{
				if( sides==15 && mode==0 && level==5 ) continue;       // every candidate blocked: documented failure
				Poly p;
				for( int s=0;s<4;s++ )                                 // going around: left, top, right, bottom
				{
					auto rot=[&]( ll x, ll y ) -> IP { x-=64;y-=64; for(int i=0;i<s;i++){ ll t=x; x=y; y=-t; } return {x+64,y+64}; };
					p.push_back( rot(0,0) );                           // corner: fixes the bounding box
					if( !(sides>>s&1) ) { if( mode!=2 ) p.push_back( rot(32,47) ); continue; }
					std::vector<int> ks;
					for( int l=1;l<=level;l++ )
					{
						int st=64>>l;
						if( mode==0 ) for( int k=st;k<64;k+=2*st ) ks.push_back(k);     // whole level
						else if( mode==1 ) ks.push_back(st);                            // lowest one of each level
						else ks.push_back(64-st);                                       // highest one of each level
					}
					std::sort(ks.begin(),ks.end()); ks.erase(std::unique(ks.begin(),ks.end()),ks.end());
					for( size_t i=0;i<ks.size();i++ )
						if( i%2==0 || (ks[i]-32)%2!=0 ) p.push_back( rot(32,32+ks[i]) ); else p.push_back( rot(48,64+(ks[i]-32)/2) );
				}
				if( !geo::isSimple(p) ) continue;
				std::vector<IP> qs; for( int x=-16;x<=144;x+=16 ) for( int y=-16;y<=144;y+=16 ) { qs.push_back({x,y}); qs.push_back({x+5,y+3}); }
				for( size_t k=0;k<2*p.size();k+= th?1:3 )
					for( auto* e: {&E[0],&E[1],&E[5]} ) onePolygon<double>( listing(p,k), *e, qs, false );
			}
	section("large");
	for( int n: bigSizes() ) for( auto& p: big(n) ) if( geo::isSimple(p) )
	{
		IP lo=p[0],hi=p[0]; for( auto& v: p ) { lo.x=std::min(lo.x,v.x); lo.y=std::min(lo.y,v.y); hi.x=std::max(hi.x,v.x); hi.y=std::max(hi.y,v.y); }
		std::vector<IP> qs; for( ll x=lo.x-1;x<=hi.x+1;x++ ) for( ll y=lo.y-1;y<=hi.y+1;y+=std::max<ll>(1,(hi.y-lo.y)/12) ) qs.push_back({x,y});
		for( size_t k: {0,5,n-1,n+3} ) for( auto* e: {&E[0],&E[4]} ) onePolygon<double>( listing(p,k%(2*p.size())), *e, qs, false );
	}
	return finish();
}
