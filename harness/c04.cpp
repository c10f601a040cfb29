// C04: homography from four point pairs
#define HOMOG2D_USE_EIGEN
#define HOMOG2D_USE_OPENCV
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;
typedef std::array<std::array<LD,3>,3> M3;
static LD det3( const M3& m ) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
struct D2 { double x,y; };
static M3 basis( const std::array<D2,4>& p )
{
	M3 m; for( int i=0;i<3;i++ ) { m[0][i]=p[i].x; m[1][i]=p[i].y; m[2][i]=1; }
	M3 s=m;
	for( int i=0;i<3;i++ ) { M3 k=m; k[0][i]=p[3].x; k[1][i]=p[3].y; k[2][i]=1; LD l=det3(k); for( int r=0;r<3;r++ ) s[r][i]=m[r][i]*l; }
	return s;
}
static M3 adj( const M3& m ) { M3 a; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { int r1=(j+1)%3,r2=(j+2)%3,c1=(i+1)%3,c2=(i+2)%3; a[i][j]=m[r1][c1]*m[r2][c2]-m[r1][c2]*m[r2][c1]; } return a; }
static M3 mul( const M3& a, const M3& b ) { M3 r{}; for(int i=0;i<3;i++)for(int j=0;j<3;j++)for(int k=0;k<3;k++) r[i][j]+=a[i][k]*b[k][j]; return r; }

static bool general( const Poly& p ) { for( int i=0;i<4;i++ ) for( int j=i+1;j<4;j++ ) for( int k=j+1;k<4;k++ ) if( cross(p[i],p[j],p[k])==0 ) return false; return true; }
template<class T> std::vector<Point2d_<T>> pts( const std::array<D2,4>& a ) { std::vector<Point2d_<T>> v; for( auto& q: a ) v.emplace_back( q.x, q.y ); return v; }
static std::array<D2,4> emb( const Poly& p, const Emb& e ) { std::array<D2,4> a; for( int i=0;i<4;i++ ) a[i]={e.X(p[i].x,p[i].y),e.Y(p[i].x,p[i].y)}; return a; }

template<class T>
void one( const Poly& s, const Poly& d, const Emb& es, const Emb& ed, int method )
{
	auto a=emb(s,es), b=emb(d,ed);
	M3 h=mul( basis(b), adj(basis(a)) );
	// size of h33 compared with the value of the third row on the points: how far the origin is from the line sent to infinity
	LD w=0; for( auto& q: a ) w=std::max( w, std::fabs(h[2][0]*q.x)+std::fabs(h[2][1]*q.y)+std::fabs(h[2][2]) );
	LD rel=std::fabs(h[2][2])/w;
	auto v1=pts<T>(a), v2=pts<T>(b);
	if( rel<1e-12 && !(es.exact && ed.exact) ) return;
	if( rel<1e-12 )
	{
		int k=thrown([&]{ buildFrom4Points(v1,v2,method); }); outcome(1000+k);
		Homogr_<T> H; H.addTranslation(1,2); Homogr_<T> before=H;
		int k2=thrown([&]{ H.buildFrom4Points(v1,v2,method); });
		check( k==1 && k2==1, "no-throw", [&]{ return str("no homography with a non-null last element exists, but no exception"); } );
		check( H==before, "no-throw-state" );
		return;
	}
	if( rel<1e-3 ) return;
	// size of the coordinates and of the quadrilateral: the error allowed is the rounding of a double, times the conditioning
	auto size=[]( const std::array<D2,4>& v ){ double o=0,s=0; for( auto& q: v ) { o=std::max({o,std::fabs(q.x),std::fabs(q.y)}); for( auto& r: v ) s=std::max({s,std::fabs(q.x-r.x),std::fabs(q.y-r.y)}); } return std::make_pair(o,s); };
	auto za=size(a), zb=size(b); double fa=1+za.first/za.second, fb=1+zb.first/zb.second;
	double tight = 1e3*2.2e-16*( fb*fb*fb + fa*fb )*zb.second, span=std::max(1.,zb.first);
	double tol = sizeof(T)==4 ? 2e-3 : method==1 && !(es.exact&&ed.exact) ? 1e-3 : tight/span;
	step(3);
	Homogr_<T> H=buildFrom4Points(v1,v2,method);
	// an object which is already in use gives the same
	Homogr_<T> U; U.addRotation(1.).addTranslation(3,4); Line2d_<T> l0(v1[0],v1[1]); auto dummy=U*l0; (void)dummy; U.buildFrom4Points(v1,v2,method);
	for( int i=0;i<4;i++ )
	{
		auto q=H*v1[i], u=U*v1[i];
		check( std::fabs(q.getX()-b[i].x)<=tol*span && std::fabs(q.getY()-b[i].y)<=tol*span, "maps", [&]{ return str("point ",i," goes to ",q," instead of ",b[i].x,",",b[i].y); } );
		check( std::fabs(u.getX()-b[i].x)<=tol*span && std::fabs(u.getY()-b[i].y)<=tol*span, "maps-reused", [&]{ return str("point ",i," goes to ",u," instead of ",b[i].x,",",b[i].y); } );
	}
	auto l=U*l0; double dd=std::max( (double)l.distTo(v2[0]), (double)l.distTo(v2[1]) );
	if( sizeof(T)==8 && es.exact&&ed.exact ) check( dd<=1e-4*span, "line", [&]{ return str("line does not follow its points, distance ",dd); } );
	outcome( mix(hd(H.value(0,0)),hd(H.value(2,0))) );
}
static std::string ds( const char* t, const Poly& s, const Poly& d, const Emb& a, const Emb& b, int m ) { return str(t," src=",s," dst=",d," emb=",a.name,"/",b.name," method=",m); }
int main( int argc, char** argv )
{
	init( argc, argv );
	auto& E=embeddings();
	std::vector<Emb> em{ E[0], {1,1,2,false,true,"shift"}, E[3], E[1] }; if( thorough() ) { em.push_back(E[4]); em.push_back(moderate()[2]); em.push_back({64.,-1024.,-320.,false,true,"large"}); }
	std::vector<Poly> src, dst, col;
	subsets( grid(0,0,2,2), 4, [&]( const Poly& p ){ if( general(p) ) src.push_back(p); } );
	sequences( grid(0,0,2,2), 4, true, false, [&]( const Poly& p ){ if( general(p) ) dst.push_back(p); } );
	sequences( grid(0,0,2,2), 4, false, false, [&]( const Poly& p ){ if( !general(p) ) col.push_back(p); } );
	section("pairs");
	for( auto& e1: em ) for( auto& e2: em ) for( auto& s: src ) for( auto& d: dst ) for( int m=0;m<2;m++ )
	{
		bool self = e1.name==e2.name;
		if( !thorough() && !self && &e1!=&em[0] && &e2!=&em[0] ) continue;
		run( [&]{ one<double>(s,d,e1,e2,m); }, [&]{ return ds("double",s,d,e1,e2,m); } );
	}
	section("types");
	for( auto& e1: {em[0],em[1]} ) for( auto& s: src ) for( auto& d: dst ) for( int m=0;m<2;m++ )
	{
		run( [&]{ one<float>(s,d,e1,em[1],m); }, [&]{ return ds("float",s,d,e1,em[1],m); } );
		run( [&]{ one<long double>(s,d,e1,em[1],m); }, [&]{ return ds("long double",s,d,e1,em[1],m); } );
	}
	section("any-order");      // every listing of the source, on a larger grid
	sequences( grid(0,0,3,thorough()?3:2), 4, true, false, [&]( const Poly& p ) { if( general(p) ) for( auto d: { Poly{{0,0},{2,0},{2,1},{0,2}}, Poly{{-3,1},{2,-2},{1,1},{0,5}}, Poly{{0,0},{1,0},{1,1},{0,1}} } ) for( auto& e: {em[0],em[1]} ) for( int m=0;m<2;m++ )
		run( [&]{ one<double>(p,d,e,em[0],m); one<double>(d,p,em[0],e,m); }, [&]{ return ds("double",p,d,e,em[0],m); } ); } );
	section("collinear");      // three aligned (or equal) source points: no solution
	for( auto& p: col ) for( auto& e: {em[0],em[1],em[3]} ) for( int m=0;m<2;m++ ) for( auto d: { Poly{{0,0},{2,0},{2,1},{0,2}}, Poly{{-3,1},{2,-2},{1,1},{0,5}} } )
		run( [&]{
			auto v1=pts<double>(emb(p,e)), v2=pts<double>(emb(d,em[0]));
			Homogr H; H.addTranslation(1,2); Homogr b=H;
			check( thrown([&]{ buildFrom4Points(v1,v2,m); })==1, "collinear-source", "three source points are collinear but no exception" );
			check( thrown([&]{ H.buildFrom4Points(v1,v2,m); })==1 && H==b, "collinear-source-state" );
			check( thrown([&]{ buildFrom4Points(v2,v1,m); })==1, "collinear-dest", "three target points are collinear but no exception" );
			outcome( 7 );
		}, [&]{ return ds("double",p,d,e,em[0],m); } );
	section("sizes");
	for( int m=0;m<2;m++ ) for( int n1=0;n1<7;n1++ ) for( int n2=0;n2<7;n2++ ) if( n1!=4 || n2!=4 )
		run( [&]{ std::vector<Point2d> all{{0,0},{1,0},{2,1},{0,2},{5,5},{7,1},{3,9}}, v1(all.begin(),all.begin()+n1), v2(all.begin(),all.begin()+n2);
			Homogr H; H.addScale(2); Homogr b=H;
			check( thrown([&]{ buildFrom4Points(v1,v2,m); })==1 && thrown([&]{ H.buildFrom4Points(v1,v2,m); })==1 && thrown([&]{ H.buildFrom4Points(v1,v2); })==1, "size-throw" ); check( H==b, "size-state" ); outcome(n1*10+n2); },
			[&]{ return str("sizes ",n1," ",n2," method=",m); } );
	return finish();
}
