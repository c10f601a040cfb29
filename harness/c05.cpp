// C05: duality of points and lines, independence of the homogeneous scale
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;

static const double K[]={ 1, -1, 2, -0.5, 3, -7, 1024, -0.0078125 };

template<class T> double tolOf() { return sizeof(T)==4 ? 2e-5 : 1e-9; }
template<class T> Point2d_<T> mk( double x, double y, double k ) { return Point2d_<T>( T(x*k), T(y*k), T(k) ); }

template<class T>
void join( const IP& a, const IP& b, const IP& c, const Emb& e, double k1, double k2 )
{
	double t=tolOf<T>();
	double ax=(T)e.X(a.x,a.y), ay=(T)e.Y(a.x,a.y), bx=(T)e.X(b.x,b.y), by=(T)e.Y(b.x,b.y), cx=(T)e.X(c.x,c.y), cy=(T)e.Y(c.x,c.y);
	double sc=std::max({1.,std::fabs(ax),std::fabs(ay),std::fabs(bx),std::fabs(by),std::fabs(cx),std::fabs(cy)});
	auto p=mk<T>(ax,ay,k1), q=mk<T>(bx,by,k2), p0=Point2d_<T>(T(ax),T(ay)), q0=Point2d_<T>(T(bx),T(by)), r=mk<T>(cx,cy,k2);
	step(4);
	check( near(p.getX(),ax,t)&&near(p.getY(),ay,t)&&near(getX(p),ax,t)&&near(getY(p),ay,t), "coords", [&]{ return str("got ",p," instead of ",ax,",",ay); } );
	check( !p.isInf() && p.type()==Type::Point2d && p.size()==1 && p.length()==0 && p.area()==0, "attrs" );
	bool exactScale = e.exact;
	if( exactScale ) { check( p==p0 && p0==p && !(p!=p0), "scale-equal" ); check( q==mk<T>(bx,by,k1), "scale-equal" ); }
	check( (p==q)==(a==b) && (q==p)==(a==b) && (p!=q)==(a!=b), "point-equal" );
	check( (p<q)==((ax<bx)||(ax==bx&&ay<by)) || !e.exact, "point-less" );
	double D=std::hypot((LD)ax-bx,(LD)ay-by);
	check( std::fabs(p.distTo(q)-D)<=t*sc && std::fabs(q.distTo(p)-D)<=t*sc && std::fabs(dist(p,q)-D)<=t*sc, "dist" );
	if( a==b )
	{
		if( e.exact ) { check( thrown([&]{ auto l=p*q; })==1, "join-throw" ); check( thrown([&]{ Line2d_<T> l(p,q); })==1, "join-throw" ); }
		outcome(1); return;
	}
	auto l=p*q, l2=q*p; Line2d_<T> l3(p,q), l4(q0,p0), l5((T)ax,(T)ay,(T)bx,(T)by);
	double L=std::hypot((LD)ax-bx,(LD)ay-by), dc=std::fabs((LD)((LD)bx-ax)*((LD)cy-ay)-((LD)by-ay)*((LD)cx-ax))/L;
	double tl=sizeof(T)>4 ? t+sc*1e-13 : t*sc*std::max(1.,sc/L);
	for( auto* x: {&l,&l2,&l3,&l4,&l5} )
	{
		check( x->distTo(p)<=tl && x->distTo(q)<=tl && p.distTo(*x)<=tl, "join-passes", [&]{ return str("line ",*x," does not pass through both points"); } );
		check( std::fabs(x->distTo(r)-dc)<=tl*std::max(1.,dc/L), "line-dist", [&]{ return str("distance of third point is ",x->distTo(r)," instead of ",dc); } );
		check( std::fabs(r.distTo(*x)-dc)<=tl*std::max(1.,dc/L), "line-dist" );
		if( sizeof(T)>4 && (sc<1e4 || (sc<1e6 && k1==1 && k2==1)) ) check( *x==l && l==*x && !(l!=*x), "join-commutes", [&]{ return str(*x," and ",l," are not equal"); } );
	}
	if( sizeof(T)>4 && sc<1e6 ) check( areCollinear(p,q,r)==(cross(a,b,c)==0), "collinear" );
	outcome( mix(hd(l.get()[0]),hd(l.get()[2])) );
}
struct L3 { ll a,b,c; };
static std::ostream& operator<<( std::ostream& o, const L3& l ) { return o<<'['<<l.a<<','<<l.b<<','<<l.c<<']'; }
template<class T>
void meet( const L3& u, const L3& v, double k1, double k2, double off )
{
	// off: the lines are moved by (off,-2*off)
	double t=tolOf<T>();
	auto C=[&]( const L3& l ){ return (double)l.c - l.a*off + 2*l.b*off; };
	double uc=C(u), vc=C(v);
	Line2d_<T> l( u.a*k1, u.b*k1, uc*k1 ), m( v.a*k2, v.b*k2, vc*k2 ), l0( (double)u.a, (double)u.b, uc );
	step(3);
	double s=std::max({1.,std::fabs(uc),std::fabs(vc)});
	check( l==l0 && l0==l && !(l!=l0), "line-scale" );
	auto A=l.get(), B=l0.get(); for( int i=0;i<3;i++ ) check( std::fabs(A[i]-B[i])<=t*s, "line-scale-form" );
	ll w=u.a*v.b-u.b*v.a;
	bool same = w==0 && u.a*v.c==u.c*v.a && u.b*v.c==u.c*v.b;
	check( (l==m)==same && (m==l)==same && (l!=m)==!same, "line-equal" );
	check( l.isParallelTo(m)==(w==0) && m.isParallelTo(l)==(w==0), "parallel" );
	double ang=std::atan2( std::fabs((double)w), std::fabs((double)(u.a*v.a+u.b*v.b)) );
	double ta=sizeof(T)==4?2e-3:1e-7;
	check( std::fabs(l.getAngle(m)-ang)<ta && std::fabs(m.getAngle(l)-ang)<ta && std::fabs(getAngle(l,m)-ang)<ta, "angle", [&]{ return str("angle=",l.getAngle(m)," expected ",ang); } );
	auto it=l.intersects(m), it2=m.intersects(l);
	check( it()==(w!=0) && it2()==(w!=0) && it.size()==(w!=0?1u:0u), "intersects" );
	if( w==0 )
	{
		check( thrown([&]{ auto p=l*m; })==1, "meet-throw" ); check( thrown([&]{ Point2d_<T> p(l,m); })==1, "meet-throw" ); check( thrown([&]{ it.get(); })==1, "meet-get-throw" );
		outcome( same?2:3 ); return;
	}
	auto p=l*m, p2=m*l; Point2d_<T> p3(l,m);
	LD ex=(LD)( u.b*(LD)vc - (LD)uc*v.b )/w, ey=(LD)( (LD)uc*v.a - u.a*(LD)vc )/w;
	double tp=t*std::max({(LD)s,std::fabs(ex),std::fabs(ey)})*10;
	for( auto* x: {&p,&p2,&p3} )
	{
		check( std::fabs(x->getX()-ex)<=tp && std::fabs(x->getY()-ey)<=tp, "meet", [&]{ return str("got ",*x," expected ",(double)ex,",",(double)ey); } );
		check( l.distTo(*x)<=tp && m.distTo(*x)<=tp && !x->isInf(), "meet-on" );
	}
	auto g=it.get(); check( std::fabs(g.getX()-ex)<=tp && std::fabs(g.getY()-ey)<=tp, "meet-get" );
	if( sizeof(T)>4 ) check( p==p2 && p==p3 && it2.get()==p, "meet-commutes" );
	outcome( mix(hd(p.getX()),hd(p.getY())) );
}
template<class T>
void infinity( const IP& d, double k, const IP& a, const Emb& e, const IP& d2, double k2 )
{
	double t=tolOf<T>();
	double ax=e.X(a.x,a.y), ay=e.Y(a.x,a.y);
	Point2d_<T> inf( d.x*k, d.y*k, 0 ), p(ax,ay), inf2( d2.x*k2, d2.y*k2, 0. );
	step(2);
	check( inf.isInf() && !p.isInf(), "isInf" );
	double sc=std::max({1.,std::fabs(ax),std::fabs(ay)});
	auto l=inf*p, l2=p*inf; Line2d_<T> l3(inf,p), l4(p,inf);
	for( auto* x: {&l,&l2,&l3,&l4} )
	{
		for( double s: {0.,1.,-3.,10.} ) { double dd=x->distTo( Point2d_<double>(ax+s*d.x,ay+s*d.y) ); check( dd<=t*sc*20, "inf-join", [&]{ return str("line ",*x," of the direction misses the point at ",s,", distance ",dd); } ); }
		double dd=x->distTo( Point2d_<double>(ax-d.y,ay+d.x) ), ex=std::hypot((double)d.x,(double)d.y); check( std::fabs(dd-ex)<=t*sc*20, "inf-join-off" );
		if( sizeof(T)>4 ) check( *x==l, "inf-commutes" );
	}
	Line2d_<T> q( Point2d_<T>(ax+1,ay-2), Point2d_<T>(ax+1+d.x,ay-2+d.y) );
	check( l.isParallelTo(q), "inf-parallel" );
	check( thrown([&]{ auto z=inf*inf2; })==1, "inf-inf", "the line through two infinite points is not refused" );
	// a translation keeps it, a rotation turns it
	Homogr_<T> H; H.addTranslation(3,4); auto i2=H*inf; check( i2.isInf(), "inf-translate" ); auto m=i2*p; check( m.isParallelTo(l) && m.distTo(p)<=t*sc*20, "inf-translate" );
	H.init(); H.addRotation(M_PI/2); auto i3=H*inf; m=i3*p; check( std::fabs(m.getAngle(l)-M_PI/2)<1e-3 && m.distTo(p)<=t*sc*20, "inf-rotate" );
	outcome( mix(hd(l.get()[0]),hd(l.get()[1])) );
}
/// nearly horizontal or vertical lines: the slope must survive, whatever its size and sign
template<class T>
void nearAxis( double x0, double y0, double L, double d, bool swap, int order )
{
	run( [&]{
		double c[4]={ x0,y0,x0+L,y0+d };
		Point2d_<T> p( (T)c[0],(T)c[1] ), q( (T)c[2],(T)c[3] );
		if( swap ) { p.set( (T)c[1],(T)c[0] ); q.set( (T)c[3],(T)c[2] ); }
		if( order ) std::swap( p, q );
		LD ax=(LD)p.getX(), ay=(LD)p.getY(), bx=(LD)q.getX(), by=(LD)q.getY(), len=std::hypot( bx-ax, by-ay );
		auto l=p*q; Line2d_<T> l2( (T)ax,(T)ay,(T)bx,(T)by ), l3( T(ay-by), T(bx-ax), T(ax*by-bx*ay) );
		step(3);
		double tol=1e-9+1e-14*std::max( std::fabs(x0), L )+1e-14*std::fabs(x0)*( std::fabs(y0)+std::fabs(d)+1 )/L;
		int k=0;
		for( auto* m: {&l,&l2,&l3} )
		{
			k++;
			check( m->distTo(p)<=tol && m->distTo(q)<=tol, "near-axis", [&]{ return str( "line ",k," is at ",m->distTo(p)," and ",m->distTo(q)," from its points" ); } );
			// a third point, and the coordinates of a point of the line
			LD f=0.25L, mx=ax+f*(bx-ax), my=ay+f*(by-ay);
			double g = swap ? (double)( m->getCoord( GivenCoord::Y, (double)my )-mx ) : (double)( m->getCoord( GivenCoord::X, (double)mx )-my );
			check( std::fabs(g)<=tol, "near-axis-coord", [&]{ return str( "getCoord() off by ",g ); } );
			auto a=m->get(); LD ta=std::fabs( (LD)a[0]*(bx-ax)+(LD)a[1]*(by-ay) )/len;
			check( ta<=1e-15, "near-axis-slope", [&]{ return str( "the slope is wrong by ",(double)ta ); } );
			outcome( hd( (double)a[2] ) );
		}
		auto o=l.getOrthogLine( q );
		check( o.distTo(q)<=tol && std::fabs( o.distTo(p)-(double)len )<=tol+1e-12*len, "near-axis-orthog", [&]{ return str( "orthogonal line is at ",o.distTo(q)," and ",o.distTo(p) ); } );
		auto pl=l.getParallelLine( Point2d_<T>( 0,0 ) );
		LD dd=std::fabs( ax*(by-ay)-ay*(bx-ax) )/len;
		check( std::fabs( pl.distTo(p)-(double)dd )<=tol && std::fabs( pl.distTo(q)-(double)dd )<=tol, "near-axis-parallel" );
	}, [&]{ return str( "(",x0,",",y0,") to (+",L,",+",d,")",swap?" swapped":"",order?" reversed":"" ); } );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=withFar(moderate()); E.push_back( { 0.7,500000.3,4500000.6,false,false,"utm" } );
	int n=thorough()?4:3;
	section("join");
	for( auto& e: E ) for( auto& a: grid(0,0,n,n) ) for( auto& b: grid(0,0,n,n) ) for( auto& c: grid(0,0,n,n) ) for( int i=0;i<8;i++ ) for( int j=0;j<8;j++ )
	{
		if( !thorough() && ((i+j)&1) ) continue;
		run( [&]{ join<double>(a,b,c,e,K[i],K[j]); }, [&]{ return str("double ",a,b,c," k=",K[i],",",K[j]," emb=",e.name); } );
	}
	section("join-types");
	for( int ie: {0,1} ) { auto& e=E[ie]; for( auto& a: grid(0,0,2,2) ) for( auto& b: grid(0,0,2,2) ) for( auto& c: grid(0,0,2,2) ) for( int i=0;i<8;i++ ) for( int j=0;j<8;j++ )
	{
		run( [&]{ join<float>(a,b,c,e,K[i],K[j]); }, [&]{ return str("float ",a,b,c," k=",K[i],",",K[j]," emb=",e.name); } );
		run( [&]{ join<long double>(a,b,c,e,K[i],K[j]); }, [&]{ return str("long double ",a,b,c," k=",K[i],",",K[j]," emb=",e.name); } );
	} }
	int m=thorough()?3:2;
	std::vector<L3> ls; for( int a=-m;a<=m;a++ ) for( int b=-m;b<=m;b++ ) for( int c=-m;c<=m;c++ ) if( a||b ) ls.push_back({a,b,c});
	section("meet");
	for( auto& u: ls ) for( auto& v: ls ) for( int i: {0,1,2,3,5} ) for( int j: {0,1,3} ) for( double off: {0.,10.,-250.5} )
		run( [&]{ meet<double>(u,v,K[i],K[j],off); }, [&]{ return str("double ",u,v," k=",K[i],",",K[j]," off=",off); } );
	section("meet-types");
	for( auto& u: ls ) for( auto& v: ls ) for( int i: {0,1} ) 
	{
		run( [&]{ meet<long double>(u,v,K[i],K[2],10.); }, [&]{ return str("long double ",u,v," k=",K[i]); } );
	}
	section("near-axis");
	for( double x0: {0.,-3.,1000.5,-1e6} ) for( double y0: {0.,2.5,-7.} ) for( double L: {0.01,1.,1e3,1e6} )
		for( double r: {0.,1e-15,3e-15,1e-14,3e-14,1e-13,1e-12,1e-11,5e-11,9.9e-11,1.01e-10,5e-10,1e-9,1e-8,1e-6,1e-4} ) for( int sg=-1;sg<=1;sg+=2 ) for( int z=0;z<4;z++ )
		{
			nearAxis<double>( x0, y0, L, sg*r*L, z&1, z>>1 ); nearAxis<long double>( x0, y0, L, sg*r*L, z&1, z>>1 );
		}
	section("infinity");
	for( auto& e: E ) for( auto& d: grid(-2,-2,2,2) ) if( d.x||d.y ) for( auto& d2: grid(-2,-2,2,2) ) if( d2.x||d2.y ) for( auto& a: grid(0,0,2,2) ) for( int i: {0,1,3,5} )
		run( [&]{ infinity<double>(d,K[i],a,e,d2,K[5-i]); }, [&]{ return str("double dir=",d," k=",K[i]," point=",a," emb=",e.name," dir2=",d2); } );
	section("defaults");
	run( [&]{ Point2d p; Line2d l; check( p.getX()==0&&p.getY()==0&&!p.isInf(), "point" ); check( l.get()==(std::array<double,3>{1,0,0}), "line" );
		check( thrown([&]{ Point2d(0,0,0); })==1, "null-point" ); check( thrown([&]{ Line2d(0,0,5); })==1, "null-line" ); check( thrown([&]{ Line2d(0,0); })==1, "null-line" ); check( thrown([&]{ Line2d a(Point2d(0,0)); })==1, "null-line" );
		for( double v: {-3.,0.,2.5} ) { Line2d h(LineDir::H,v), w(LineDir::V,v); check( h==Line2d(Point2d(0,v),Point2d(5,v)) && w==Line2d(Point2d(v,1),Point2d(v,9)), "hv" ); Line2d hp(LineDir::H,Point2d(7,v)), wp(LineDir::V,Point2d(v,7)); check( hp==h&&wp==w, "hv-pt" ); }
		outcome(5); outcome(6); },
		[&]{ return "default, null and horizontal/vertical"; } );
	section("from-origin");
	for( auto& d: grid(-3,-3,3,3) ) if( d.x||d.y ) for( int i=0;i<8;i++ )
		run( [&]{ Line2d a( (double)d.x, (double)d.y ), b( mk<double>(d.x,d.y,K[i]) ), c( Point2d(), mk<double>(d.x,d.y,K[i]) ); check( a==b && b==c && a==c, "origin-line" ); check( a.distTo(Point2d(d.x*2,d.y*2))<1e-9 && a.distTo(Point2d())<1e-12, "origin-line" ); outcome( mix(hd(a.get()[0]),hd(a.get()[1])) ); }, [&]{ return str("line from origin to ",d," k=",K[i]); } );
	return finish();
}
