// C33: conversions to and from OpenCV, Boost.Geometry, plain containers and user types
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#define HOMOG2D_USE_BOOSTGEOM
#define HOMOG2D_USE_OPENCV
#ifdef C33_BIND
#define HOMOG2D_BIND_X col
#define HOMOG2D_BIND_Y row
#else
#define col x
#define row y
#endif
template<class N> struct User { N col,row; };
template<class N> struct UserRev { N row; int other=7; N col; };              // other layout
struct UserBase { double col,row; }; struct UserDer: UserBase { int z=0; };    // inherited members
#ifndef C33_BIND
#undef col
#undef row
#endif
template<class N> struct Out { N a=0,b=0; Out()=default; Out( N aa, N bb ): a(aa), b(bb) {} };
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
namespace bg=boost::geometry;
typedef long double LD;
#ifdef C33_BIND
template<class U,class N> static U mk( N x, N y ) { U u; u.col=x; u.row=y; return u; }
#else
template<class U,class N> static U mk( N x, N y ) { U u; u.x=x; u.y=y; return u; }
#endif
template<class N> using BP = bg::model::point<N,2,bg::cs::cartesian>;
template<class N> using BXY = bg::model::d2::point_xy<N>;

/// an object which has already been in use
template<class T> static Point2d_<T> usedPt( int k )
{
	Point2d_<T> p( 7, -3 );
	if( k==1 ) { Homogr_<T> H; H.addRotation(0.5).addTranslation(2,9); p=H*p; }
	if( k==2 ) p=Point2d_<T>( 2, 3, 0 );         // point at infinity
	if( k==3 ) p=Point2d_<T>( 4, 6, -2 );
	return p;
}
template<class T,class F> static void fromOne( const char* name, const F& f, LD x, LD y )
{
	auto same=[&]( const Point2d_<T>& p, const char* how ){
		check( !p.isInf() && p.getX()==(T)x && p.getY()==(T)y, "import", [&]{ return str( name," ",how,": got ",p.getX(),",",p.getY()," from ",x,",",y ); } );
	};
	step( 6 );
	{ Point2d_<T> p( f ); same( p, "constructor" ); outcome( mix( hd((double)p.getX()), hd((double)p.getY()) ) ); }
	{ Point2d_<T> p=f; same( p, "initialization" ); }
	for( int k=0;k<4;k++ ) { auto p=usedPt<T>(k); p=f; same( p, "assignment" ); }
	{ std::vector<Point2d_<T>> v; v.push_back( f ); v.emplace_back( f ); same( v[0], "push_back" ); same( v[1], "emplace_back" ); }
	{ std::vector<F> in{ f,f,f }; std::vector<Point2d_<T>> v( in.begin(), in.end() ); for( auto& p: v ) same( p, "range" ); }
}
template<class T,class L> static void throughOrigin( const char* name, const L& mkline, LD x, LD y )
{
	step();
	if( x==0 && y==0 ) { check( thrown( [&]{ mkline(); } )==1, "null-line", [&]{ return str( name,": line through (0,0) twice" ); } ); return; }
	Line2d_<T> l=mkline(); auto v=l.get(); LD n=std::hypot( (LD)v[0],(LD)v[1] ), r=std::hypot( x,y );
	LD eps= sizeof(T)==4?1e-5:1e-12;
	check( std::fabs( n-1 )<=eps && std::fabs( (LD)v[2] )<=eps && std::fabs( v[0]*x+v[1]*y )<=eps*r, "line", [&]{ return str( name,": line ",l," through (0,0) and ",x,",",y ); } );
}
template<class N> static bool fits( LD v ) { return (LD)(N)v==v; }
template<class T,class N> void importN( LD x, LD y )
{
	if( !fits<N>(x) || !fits<N>(y) ) return;
	const char* n= std::is_same_v<N,int>?"int":std::is_same_v<N,float>?"float":"double";
	run( [&]{
		N a=(N)x,b=(N)y;
		fromOne<T>( "cv", cv::Point_<N>(a,b), x, y );
		fromOne<T>( "boost-point", BP<N>(a,b), x, y );
		fromOne<T>( "boost-xy", BXY<N>(a,b), x, y );
		fromOne<T>( "user", mk<User<N>>(a,b), x, y );
		fromOne<T>( "user-other-order", mk<UserRev<N>>(a,b), x, y );
		fromOne<T>( "user-derived", mk<UserDer>( (double)a,(double)b ), x, y );
		for( int k=0;k<4;k++ )
		{
			auto p=usedPt<T>(k); p.set( BP<N>(a,b) ); auto q=usedPt<T>(k); q.set( BXY<N>(a,b) );
			check( p.getX()==(T)x && p.getY()==(T)y && q.getX()==(T)x && q.getY()==(T)y && !p.isInf() && !q.isInf(), "set-boost", [&]{ return str( p,q ); } );
		}
		throughOrigin<T>( "cv", [&]{ return Line2d_<T>( cv::Point_<N>(a,b) ); }, x, y );
		throughOrigin<T>( "user", [&]{ return Line2d_<T>( mk<User<N>>(a,b) ); }, x, y );
		throughOrigin<T>( "assign", [&]{ Line2d_<T> l(1,2,3); l=Line2d_<T>( mk<UserDer>((double)a,(double)b) ); return l; }, x, y );
	}, [&]{ return str( "from ",n," ",x,",",y," to type of size ",sizeof(T) ); } );
}
template<class P,class T> static bool outIs( const P& p, T x, T y )
{
	if constexpr( std::is_same_v<P,Out<int>> || std::is_same_v<P,Out<float>> || std::is_same_v<P,Out<double>> ) return p.a==(decltype(p.a))x && p.b==(decltype(p.b))y;
	else if constexpr( std::is_same_v<P,cv::Point2i> ) { bool whole= x==std::floor(x) && y==std::floor(y); return whole ? p.x==x && p.y==y : std::fabs(p.x-x)<1 && std::fabs(p.y-y)<1; }
	else if constexpr( std::is_same_v<P,cv::Point2f> ) return p.x==(float)x && p.y==(float)y;
	else if constexpr( std::is_same_v<P,cv::Point2d> ) return p.x==(double)x && p.y==(double)y;
	else { using N=std::decay_t<decltype(bg::get<0>(p))>; return bg::get<0>(p)==(N)x && bg::get<1>(p)==(N)y; }
}
template<class P,class T> void outOne( const char* name, const Point2d_<T>& p )
{
	T x=p.getX(), y=p.getY();
	step(4);
	check( outIs( p.template getPt<P>(), x, y ), "export", [&]{ return str( name," member ",p ); } );
	check( outIs( getPt<P>( p ), x, y ), "export", [&]{ return str( name," free ",p ); } );
	std::vector<Point2d_<T>> v{ p, Point2d_<T>(1,2), p, Point2d_<T>(3,4,2) };
	auto w=getPts<P>( v );
	check( w.size()==4 && outIs( w[0],x,y ) && outIs( w[1],(T)1,(T)2 ) && outIs( w[2],x,y ) && outIs( w[3],(T)1.5,(T)2 ), "export-vector", [&]{ return str( name," ",p ); } );
	check( getPts<P>( std::vector<Point2d_<T>>() ).empty(), "export-empty" );
}
template<class T> void exportT( LD x, LD y, LD w )
{
	run( [&]{
		Point2d_<T> p( (T)(x*w), (T)(y*w), (T)w );
		outOne<cv::Point2d>( "cv double", p ); outOne<cv::Point2f>( "cv float", p ); outOne<cv::Point2i>( "cv int", p );
		outOne<BP<double>>( "boost double", p ); outOne<BP<float>>( "boost float", p ); outOne<BXY<double>>( "boost xy double", p ); outOne<BXY<float>>( "boost xy float", p );
		outOne<Out<double>>( "user double", p ); outOne<Out<float>>( "user float", p ); outOne<Out<int>>( "user int", p );
		T a=p.getX(), b=p.getY();
		cv::Point2d d1=p.getCvPtd(), d2=getCvPtd(p), d3=getCvPt<cv::Point2d>(p); cv::Point2f f1=p.getCvPtf(), f2=getCvPtf(p), f3=getCvPt<cv::Point2f>(p); cv::Point2i i1=p.getCvPti(), i2=getCvPti(p), i3=getCvPt<cv::Point2i>(p);
		auto ad=p.getCvPtd(); auto af=p.getCvPtf();
		for( auto& d: {d1,d2,d3,cv::Point2d(ad)} ) check( outIs( d,a,b ), "cvptd", [&]{ return str( d.x,",",d.y," from ",p ); } );
		for( auto& d: {f1,f2,f3,cv::Point2f(af)} ) check( outIs( d,a,b ), "cvptf", [&]{ return str( d.x,",",d.y," from ",p ); } );
		for( auto& d: {i1,i2,i3} ) check( outIs( d,a,b ), "cvpti", [&]{ return str( d.x,",",d.y," from ",p ); } );
		// and back
		if( sizeof(T)<=8 ) { Point2d_<T> q( d1 ), r( BP<double>( p.template getPt<BP<double>>() ) ); check( q.getX()==a && q.getY()==b && r.getX()==a && r.getY()==b, "round-trip", [&]{ return str( p,q,r ); } ); }
		outcome( mix( hd((double)a), hd((double)b) ) );
	}, [&]{ return str( "point ",x,",",y," w=",w," size ",sizeof(T) ); } );
}
template<class T,class N1,class N2> void twoCv( const IP& a, const IP& b, double s )
{
	run( [&]{
		cv::Point_<N1> p( (N1)(a.x*s), (N1)(a.y*s) ); cv::Point_<N2> q( (N2)(b.x*s), (N2)(b.y*s) );
		step();
		if( (LD)p.x==(LD)q.x && (LD)p.y==(LD)q.y ) { check( thrown( [&]{ Line2d_<T> l( p,q ); } )==1, "same-points" ); outcome(1); return; }
		Line2d_<T> l( p, q ); auto v=l.get();
		LD eps= sizeof(T)==4 ? 1e-5 : 1e-12, m=1+std::fabs((LD)p.x)+std::fabs((LD)p.y)+std::fabs((LD)q.x)+std::fabs((LD)q.y);
		if( std::is_same_v<N1,float> || std::is_same_v<N2,float> ) eps=std::max<LD>( eps, 1e-12 );
		check( std::fabs( std::hypot((LD)v[0],(LD)v[1])-1 )<=eps && std::fabs( v[0]*(LD)p.x+v[1]*(LD)p.y+v[2] )<=eps*m && std::fabs( v[0]*(LD)q.x+v[1]*(LD)q.y+v[2] )<=eps*m, "two-points", [&]{ return str( l," through ",p.x,",",p.y," and ",q.x,",",q.y ); } );
		outcome( mix( hd((double)v[0]), hd((double)v[2]) ) );
	}, [&]{ return str( "line through ",a.x,",",a.y," and ",b.x,",",b.y," times ",s ); } );
}
template<class LP,class T> static std::string homog( const base::LPBase<LP,T>& p ) { auto a=p.get(); char b[200]; snprintf( b,200,"%.20Lg,%.20Lg,%.20Lg",(LD)a[0],(LD)a[1],(LD)a[2] ); return b; }
template<class LP,class T,class N> void three( const std::vector<N>& v )
{
	using O=base::LPBase<LP,T>;
	run( [&]{
		step(4);
		if( v.size()!=3 ) { int k=thrown( [&]{ O o( v ); } ); check( k==1, "size", [&]{ return str( "result ",k ); } ); O o( 1,2,3 ); auto h=homog(o); k=thrown( [&]{ o=O( v ); } ); check( k==1 && homog(o)==h, "size-used" ); outcome(k); return; }
		std::array<N,3> ar{ v[0],v[1],v[2] };
		bool bad= std::is_same_v<LP,typ::IsLine> ? v[0]==0&&v[1]==0 : v[0]==0&&v[1]==0&&v[2]==0;
		std::string e; int ke=thrown( [&]{ O o( (T)v[0],(T)v[1],(T)v[2] ); e=homog(o); } );
		std::string r1,r2,r3,r4;
		int k1=thrown( [&]{ O o( v ); r1=homog(o); } ), k2=thrown( [&]{ O o( ar ); r2=homog(o); } );
		int k3=thrown( [&]{ O o( 1,2,3 ); o=v; r3=homog(o); } ), k4=thrown( [&]{ O o( 1,2,3 ); o=ar; r4=homog(o); } );
		if( bad ) check( ke==1, "null-values" );
		check( ke==k1 && ke==k2 && ke==k3 && ke==k4, "same-kind", [&]{ return str( ke,k1,k2,k3,k4 ); } );
		check( r1==e && r2==e && r3==e && r4==e, "same-values", [&]{ return str( e," | ",r1," | ",r2," | ",r3," | ",r4 ); } );
		if( ke==0 )
		{   // independent statement: proportional to the given values, and the announced normal form
			O o( v ); auto a=o.get(); LD m=0; for( auto x: v ) m=std::max( m, std::fabs((LD)x) ); LD eps= sizeof(T)==4||sizeof(N)==4&&!std::is_integral_v<N> ? 1e-5 : 1e-11;
			LD n=0; for( auto x: a ) n=std::max( n, std::fabs((LD)x) );
			for( int i=0;i<3;i++ ) for( int j=i+1;j<3;j++ ) check( std::fabs( (LD)a[i]*v[j]-(LD)a[j]*v[i] )<=eps*m*n, "proportional", [&]{ return str( homog(o) ); } );
			if( sizeof(T)>4 && ( std::is_same_v<LP,typ::IsLine> || v[2]!=0 ) ) check( o==O(a), "again" );
		}
		for( char c: e ) outcome( mix( c, e.size() ) );
	}, [&]{ std::string s; for( auto x: v ) s+=str( x," " ); return str( "values ",s ); } );
}

// ---------------------------------------------------------------- matrices
typedef std::array<std::array<double,3>,3> M3;
static LD det3( const M3& m ) { return (LD)m[0][0]*((LD)m[1][1]*m[2][2]-(LD)m[1][2]*m[2][1]) - (LD)m[0][1]*((LD)m[1][0]*m[2][2]-(LD)m[1][2]*m[2][0]) + (LD)m[0][2]*((LD)m[1][0]*m[2][1]-(LD)m[1][1]*m[2][0]); }
static M3 norm( M3 m ) { double k=m[2][2]; for( auto& r: m ) for( auto& e: r ) e/=k; return m; }
static M3 mul( const M3& a, const M3& b ) { M3 r{}; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) for( int k=0;k<3;k++ ) r[i][j]+=a[i][k]*b[k][j]; return r; }
static M3 inv( const M3& m ) { M3 a; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { int r1=(j+1)%3,r2=(j+2)%3,c1=(i+1)%3,c2=(i+2)%3; a[i][j]=m[r1][c1]*m[r2][c2]-m[r1][c2]*m[r2][c1]; } return a; }
static std::string ms( const M3& m ) { std::string s="["; for( auto& r: m ) { for( auto e: r ) s+=str( e," " ); s+="/"; } return s+"]"; }
enum { FORMS=8 };
static cv::Mat mat( const M3& m, int type, int layout )
{
	auto put=[&]( cv::Mat& x, bool t ){ for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { double v= t?m[j][i]:m[i][j]; if( type==CV_64F ) x.at<double>(i,j)=v; else x.at<float>(i,j)=(float)v; } };
	if( layout==0 ) { cv::Mat x( 3,3,type ); put( x,false ); return x; }
	if( layout==1 ) { cv::Mat big( 6,7,type, cv::Scalar(99) ); cv::Mat x=big( cv::Rect(2,1,3,3) ); put( x,false ); return x; }     // part of a larger one
	if( layout==2 ) { cv::Mat x( 3,3,type ); put( x,true ); cv::Mat y=x.t(); return y; }
	cv::Mat big( 3,8,type, cv::Scalar(-5) ); cv::Mat x=big.colRange(5,8); put( x,false ); return x;
}
template<class T> static Homogr_<T> make( const M3& m, int form )
{
	if( form<4 ) { Homogr_<T> H=mat( m, form%2?CV_32F:CV_64F, form<2?0:1 ); return H; }
	if( form==4 ) { std::vector<std::vector<double>> v; for( auto& r: m ) v.emplace_back( r.begin(), r.end() ); return Homogr_<T>( v ); }
	if( form==5 ) { std::vector<std::vector<float>> v; for( auto& r: m ) v.emplace_back( r.begin(), r.end() ); return Homogr_<T>( v ); }
	if( form==6 ) return Homogr_<T>( m );
	std::array<std::array<float,3>,3> f; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) f[i][j]=(float)m[i][j];
	return Homogr_<T>( f );
}
/// compares a homography with the wanted matrix, by its elements and by what it does
template<class T> static void matches( const Homogr_<T>& H, const M3& want, const char* tag, double tol )
{
	M3 w=norm( want );
	double big=1; for( auto& r: w ) for( auto e: r ) big=std::max( big, std::fabs(e) );
	for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ )
		if( !check( std::fabs( (double)H.value(i,j)-w[i][j] )<=tol*big, tag, [&]{ return str( "element ",i,",",j," is ",H.value(i,j),", expected ",w[i][j] ); } ) ) return;
	double P[4][2]={{0,0},{3,1},{-2,5},{4,-3}};
	auto img=[&]( const double* p, double* q ){ for( int i=0;i<3;i++ ) q[i]=w[i][0]*p[0]+w[i][1]*p[1]+w[i][2]; };
	for( auto& p: P )
	{
		double q[3]; img( p,q ); if( std::fabs(q[2])<0.2 ) continue;
		auto r=H*Point2d_<T>( p[0],p[1] );
		double s=1+( std::fabs(q[0])+std::fabs(q[1])+big )/std::fabs(q[2]);
		check( std::fabs( (double)r.getX()-q[0]/q[2] )<=20*tol*big*s && std::fabs( (double)r.getY()-q[1]/q[2] )<=20*tol*big*s, tag, [&]{ return str( "image of ",p[0],",",p[1]," is ",r ); } );
	}
	if( std::fabs( (double)det3( w ) )<0.05 ) return;
	for( int i=0;i<4;i++ )
	{
		double *p=P[i],*o=P[(i+1)%4], q1[3],q2[3]; img(p,q1); img(o,q2);
		auto l=( H*Line2d_<T>( Point2d_<T>(p[0],p[1]), Point2d_<T>(o[0],o[1]) ) ).get();
		for( auto q: {q1,q2} ) { double m=0,n=0; for( int k=0;k<3;k++ ) { m=std::max(m,std::fabs(q[k])); n=std::max( n,std::fabs((double)l[k]) ); }
			check( std::fabs( l[0]*q[0]+l[1]*q[1]+l[2]*q[2] )<=500*tol*big*big*m*n, tag, [&]{ return str( "image of the line through points ",i," and ",(i+1)%4," is not the line through their images" ); } ); }
	}
}
template<class T> static Homogr_<T> usedH( int k )
{
	Homogr_<T> H;
	if( k==0 ) return H;
	H.addRotation( 0.3 ).addTranslation( 4,5 );
	Line2d_<T> l( 1,2,3 ); auto r=H*l; (void)r;                 // inverse computed and kept
	if( k==2 ) H.inverse();
	if( k==3 ) H.value(2,2)=2;                                  // not normalized
	return H;
}
template<class T> void matCase( const M3& m, bool th )
{
	run( [&]{
		double tol= sizeof(T)==4 ? 2e-6 : 1e-12, tolf=2e-6;
		bool ok=std::fabs( m[2][2] )>1e-9;
		for( int f=0;f<FORMS;f++ )
		{
			step();
			if( !ok )
			{
				int k=thrown( [&]{ auto H=make<T>( m,f ); (void)H; } ); check( k==1, "null-last", [&]{ return str( "form ",f," result ",k ); } ); outcome( 77 );
				continue;
			}
			auto H=make<T>( m,f ); matches( H, m, "build", f%2?std::max(tol,tolf):tol ); check( H.isNormalized(), "normalized", [&]{ return str( "form ",f ); } );
			auto G=make<T>( m,f ); check( H==G, "equal" );
		}
		for( int t: { CV_64F, CV_32F } ) for( int lay=0;lay<4;lay++ ) for( int k=0;k<4;k++ )
		{
			auto x=mat( m,t,lay ); auto keep=x.clone(); auto H=usedH<T>( k );
			step();
			if( !ok )
			{
				auto b=H; int r=thrown( [&]{ H=x; } ); check( r==1, "null-last-assign", [&]{ return str( "result ",r ); } );
				for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) check( H.value(i,j)==b.value(i,j), "null-last-state" );
				continue;
			}
			H=x; matches( H, m, "assign", t==CV_32F?std::max(tol,tolf):tol );
			check( H.isNormalized(), "normalized-assign" );
			check( cv::norm( x-keep )==0, "source-changed" );
			if( k ) continue;
			// written out in both types, into matrices of every state
			for( int t2: { CV_64F, CV_32F } ) for( int dst=0;dst<5;dst++ )
			{
				cv::Mat big( 6,7,t2, cv::Scalar(42) ), d;
				if( dst==1 ) d=cv::Mat( 5,2,CV_8UC3 );
				if( dst==2 ) d=cv::Mat( 3,3,t2, cv::Scalar(11) );
				if( dst==3 ) d=big( cv::Rect(1,2,3,3) );
				if( dst==4 ) d=x;                                // the very matrix it came from
				if( dst==4 && t2!=t ) continue;
				step(2);
				H.copyTo( d, t2 );
				check( d.rows==3 && d.cols==3 && d.type()==t2, "copy-form" );
				for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { double v= t2==CV_64F?d.at<double>(i,j):d.at<float>(i,j); double w= t2==CV_64F? (double)H.value(i,j) : (double)(float)H.value(i,j); check( v==w, "copy", [&]{ return str( "element ",i,",",j," ",v," instead of ",w ); } ); }
				if( dst==3 ) for( int i=0;i<6;i++ ) for( int j=0;j<7;j++ ) if( i<2||i>4||j<1||j>3 ) check( ( t2==CV_64F?big.at<double>(i,j):big.at<float>(i,j) )==42, "copy-outside" );
				auto B=usedH<T>( dst%4 ); B=d; matches( B, m, "back", t2==CV_32F||t==CV_32F?std::max(tol,tolf):tol );
				if( t2==CV_64F && sizeof(T)<=8 ) for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) check( B.value(i,j)==H.value(i,j), "back-exact" );
			}
		}
		outcome( mix( hd((double)det3(m)), hd(m[0][0]) ) );
		(void)th;
	}, [&]{ return str( ms(m)," size ",sizeof(T) ); } );
}
template<class T> void badMat( int rows, int cols, int type, int k )
{
	run( [&]{
		cv::Mat x= rows ? cv::Mat( rows, cols, type, cv::Scalar::all(1) ) : cv::Mat();
		auto H=usedH<T>( k ); auto b=H; step(3);
		int r=thrown( [&]{ H=x; } ), r2=thrown( [&]{ Homogr_<T> N( x ); (void)N; } );
		check( r==1 && r2==1, "bad-mat", [&]{ return str( r," ",r2 ); } );
		for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) check( H.value(i,j)==b.value(i,j), "bad-mat-state" );
		if( type!=CV_64F && type!=CV_32F ) { cv::Mat d( 2,2,CV_8U, cv::Scalar(9) ); int r3=thrown( [&]{ H.copyTo( d, type ); } ); check( r3==1 && d.rows==2 && d.cols==2 && d.at<uchar>(1,1)==9, "bad-copy" ); }
		outcome( mix( rows*10+cols, type ) );
	}, [&]{ return str( rows,"x",cols," type ",type," used ",k ); } );
}
template<class T,class N> void badVec( const std::vector<int>& sizes )
{
	run( [&]{
		std::vector<std::vector<N>> v; for( int s: sizes ) v.emplace_back( s, N(1) );
		bool ok=sizes.size()==3; for( int s: sizes ) ok=ok&&s==3;
		int r=thrown( [&]{ Homogr_<T> H( v ); } ); step();
		check( r==( ok?0:1 ), "vec-size", [&]{ return str( "result ",r ); } );
		outcome( sizes.size() );
	}, [&]{ std::string s; for( int x: sizes ) s+=str( x," " ); return str( "sizes ",s ); } );
}
/// histories: one matrix object going through assignments from foreign matrices, transformations and refused assignments
template<class T> void history( const std::vector<int>& ops, const std::vector<M3>& ms_ )
{
	run( [&]{
		Homogr_<T> H; M3 w{{ {1,0,0},{0,1,0},{0,0,1} }};
		double tol= sizeof(T)==4 ? 2e-5 : 1e-9; bool f32=false;
		for( int o: ops )
		{
			step();
			switch( o )
			{
				case 0: H=mat( ms_[0],CV_64F,1 ); w=ms_[0]; f32=false; break;
				case 1: H=mat( ms_[1],CV_32F,0 ); w=ms_[1]; f32=true; break;
				case 2: check( thrown( [&]{ H=cv::Mat( 3,3,CV_32S,cv::Scalar(1) ); } )==1, "h-throw" ); break;
				case 3: { M3 z=ms_[0]; z[2][2]=0; check( thrown( [&]{ H=mat( z,CV_64F,0 ); } )==1, "h-null" ); break; }
				case 4: H.addTranslation( 2,-1 ); w=mul( M3{{ {1,0,2},{0,1,-1},{0,0,1} }}, w ); break;
				case 5: if( std::fabs( norm(inv(w))[0][0] )>50 || std::fabs( inv(w)[2][2] )<1e-2 || std::fabs( (double)det3(norm(w)) )<0.05 ) return; H.inverse(); w=inv(w); break;
				case 6: { auto l=H*Line2d_<T>( 1,2,3 ); (void)l; break; }
				case 7: { cv::Mat d; H.copyTo( d ); Homogr_<T> B=usedH<T>(1); B=d; H=B; break; }
				case 8: { std::vector<std::vector<double>> v; for( auto& r: ms_[2] ) v.emplace_back( r.begin(), r.end() ); H=Homogr_<T>( v ); w=ms_[2]; f32=false; break; }
				case 9: H.value(0,2)=H.value(0,2)+1; w=norm(w); w[0][2]+=1; break;
			}
			w=norm( w ); double big=0; for( auto& r: w ) for( auto e: r ) big=std::max( big,std::fabs(e) ); if( big>1e3 ) return;
			matches( H, w, "history", f32?std::max(tol,2e-5):tol );
			for( auto& r: w ) for( auto e: r ) outcome( hd(e) );
		}
	}, [&]{ std::string s; for( int o: ops ) s+=str( o," " ); return str( "ops ",s ); } );
}
// ---------------------------------------------------------------- polygons
template<class PLT,class T,class BPT,bool CLKW,bool CLOSED> void poly( const Poly& p, const Emb& e, bool hole )
{
	using N=typename bg::coordinate_type<BPT>::type; using PL=base::PolylineBase<PLT,T>;
	bg::model::polygon<BPT,CLKW,CLOSED> b; std::vector<Point2d_<T>> v;
	for( auto& q: p ) { N x= std::is_integral_v<N>?(N)q.x:(N)e.X(q.x,q.y), y= std::is_integral_v<N>?(N)q.y:(N)e.Y(q.x,q.y); b.outer().push_back( BPT( x,y ) ); v.emplace_back( (T)x,(T)y ); }
	if( hole ) { b.inners().resize(1); b.inners()[0].push_back( BPT(1,1) ); b.inners()[0].push_back( BPT(2,1) ); }
	bool closed= v.size()>1 && p.front()==p.back();
	bool open=std::is_same_v<PLT,typ::IsOpen>;
	auto w=v; if( closed ) w.pop_back();
	bool bad= w.size()==1 || ( open && closed );
	for( size_t i=0;i+1<w.size();i++ ) if( w[i]==w[i+1] ) bad=true;
	step(3);
	auto same=[&]( const PL& l, const char* how ){
		bool ok= l.size()==w.size() && l.isClosed()==!open; for( size_t i=0;ok&&i<w.size();i++ ) ok= l.getPoint(i).getX()==w[i].getX() && l.getPoint(i).getY()==w[i].getY();
		check( ok, "polygon", [&]{ return str( how," ",l ); } );
		if( ok ) { PL r( w ); check( l==r && l.length()==r.length(), "polygon-values", [&]{ return str( how ); } ); check( l.isSimple()==r.isSimple(), "polygon-values" ); if constexpr( std::is_same_v<PLT,typ::IsClosed> ) if( l.isSimple() ) check( l.area()==r.area(), "polygon-values" ); }
	};
	if( !bad && w.size()>1 )  // other ill-formed lists (last point given again, ...): as for a plain vector
	{
		int k=thrown( [&]{ PL r( w ); (void)r; } ); if( k==1 ) bad=true;
	}
	std::unique_ptr<PL> u;
	int k=thrown( [&]{ u.reset( new PL( b ) ); } );
	outcome( mix( k, w.size() ) );
	if( bad ) { check( k==1, "bad-polygon", [&]{ return str( "result ",k, u?str(*u):"" ); } ); return; }
	if( !check( k==0, "refused", [&]{ return str( "result ",k ); } ) ) return;
	same( *u, "constructor" );
	for( int h=0;h<3;h++ )
	{
		PL x; if( h>0 ) { x.set( std::vector<Point2d_<T>>{ {0,0},{5,0},{5,7} } ); if( h==2 ) { x.length(); if( x.isSimple() && !open ) x.centroid(); } }
		x=PL( b ); same( x, "assigned" );
	}
	if( w.size()>1 )
	{   // exported again
		auto out=getPts<BPT>( PL( b ).getPts() ); /* comparing reorders the points of a closed one */ bool ok=out.size()==w.size();
		for( size_t i=0;ok&&i<out.size();i++ ) ok= bg::get<0>(out[i])==(N)w[i].getX() && bg::get<1>(out[i])==(N)w[i].getY();
		check( ok, "polygon-export" );
	}
}
template<class T,class BPT,bool CLKW,bool CLOSED> void poly2( const Poly& p, const Emb& e )
{
	for( int h=0;h<2;h++ ) { poly<typ::IsClosed,T,BPT,CLKW,CLOSED>( p,e,h ); poly<typ::IsOpen,T,BPT,CLKW,CLOSED>( p,e,h ); }
}
template<class T,class BPT> void poly4( const Poly& p, const Emb& e ) { poly2<T,BPT,false,false>( p,e ); poly2<T,BPT,true,false>( p,e ); poly2<T,BPT,false,true>( p,e ); poly2<T,BPT,true,true>( p,e ); }
template<class T> void polyT( const Poly& p, const Emb& e, bool flt )
{
	run( [&]{
		poly4<T,BP<double>>( p,e ); poly4<T,BXY<double>>( p,e );
		if( flt ) { poly4<T,BP<float>>( p,e ); poly4<T,BXY<float>>( p,e ); poly4<T,BP<int>>( p,e ); poly4<T,BXY<int>>( p,e ); }
	}, [&]{ return str( "vertices ",p," ",e.name," size ",sizeof(T) ); } );
}
template<class T> void rectCase( int r, int c )
{
	run( [&]{
		cv::Mat m; if( r>0 && c>0 ) m=cv::Mat( r,c,CV_8UC3 ); step();
		if( m.empty() ) { check( thrown( [&]{ getFRect<T>( m ); } )==1, "empty-mat" ); return; }
		auto f=getFRect<T>( m ); auto p=f.getPts();
		check( p.first.getX()==0 && p.first.getY()==0 && p.second.getX()==c && p.second.getY()==r, "mat-rect", [&]{ return str( f ); } );
		outcome( r*1000+c );
	}, [&]{ return str( r,"x",c ); } );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	bool th=thorough();
	std::vector<LD> V{ 0,1,-1,2,0.5,-2.25,0.1,3.7,-1234.5,100000,16777217.,1e-3,-0.75e6,0.3333333333333333 };
	if( th ) for( LD x: { 1e9,-2147483648.,1e-9,123456.789,-0.0078125,65535.,4.999999,1e15,-3.,7.,40.125 } ) V.push_back( x );
	for( LD x: V ) for( LD y: V )
	{
		section( "import" );
		importN<double,int>( x,y ); importN<double,float>( (float)x,(float)y ); importN<double,double>( (double)x,(double)y );
		importN<float,int>( x,y ); importN<float,float>( (float)x,(float)y ); importN<float,double>( (double)x,(double)y );
		importN<long double,int>( x,y ); importN<long double,float>( (float)x,(float)y ); importN<long double,double>( (double)x,(double)y );
		section( "export" );
		for( LD w: { 1.,2.,-4.,0.125 } ) if( std::fabs(x)<1e9 && std::fabs(y)<1e9 ) { exportT<double>( x,y,w ); exportT<float>( x,y,w ); exportT<long double>( x,y,w ); }
	}
	auto g3=geo::grid(-1,-1,1,1);
	for( auto& a: g3 ) for( auto& b: g3 ) for( double s: { 1.,10.,0.5,1000. } )
	{
		section( "two-points" );
		twoCv<double,double,double>( a,b,s ); twoCv<double,int,double>( a,b,s ); twoCv<double,float,int>( a,b,s ); twoCv<float,double,float>( a,b,s ); twoCv<float,int,int>( a,b,s ); twoCv<long double,double,float>( a,b,s ); twoCv<long double,int,double>( a,b,s );
	}
	std::vector<double> W{ 0,1,-2,0.5,3,-7.25,100 };
	for( double a: W ) for( double b: W ) for( double c: W )
	{
		section( "three-values" );
		three<typ::IsPoint,double,double>( {a,b,c} ); three<typ::IsLine,double,double>( {a,b,c} ); three<typ::IsPoint,float,double>( {a,b,c} ); three<typ::IsLine,float,double>( {a,b,c} );
		three<typ::IsPoint,double,float>( {(float)a,(float)b,(float)c} ); three<typ::IsLine,double,float>( {(float)a,(float)b,(float)c} ); three<typ::IsPoint,float,float>( {(float)a,(float)b,(float)c} ); three<typ::IsLine,float,float>( {(float)a,(float)b,(float)c} );
		three<typ::IsPoint,double,int>( {(int)a,(int)b,(int)c} ); three<typ::IsLine,double,int>( {(int)a,(int)b,(int)c} ); three<typ::IsPoint,long double,double>( {a,b,c} ); three<typ::IsLine,long double,int>( {(int)a,(int)b,(int)c} );
	}
	section( "three-sizes" );
	for( size_t n: { 0,1,2,4,5,6 } )
	{
		three<typ::IsPoint,double,double>( std::vector<double>(n,1) ); three<typ::IsLine,double,double>( std::vector<double>(n,1) ); three<typ::IsPoint,float,int>( std::vector<int>(n,1) ); three<typ::IsLine,float,int>( std::vector<int>(n,1) ); three<typ::IsLine,long double,float>( std::vector<float>(n,1) );
	}
	// matrices: all affine/projective parts from the menus
	std::vector<std::array<double,4>> A{ {1,0,0,1},{2,0,0,3},{0,-1,1,0},{1,1,-1,1},{0.1,0.7,-0.3,2.5},{1,2,2,4},{0,0,0,0},{-5,0.25,3,1} };
	std::vector<std::array<double,2>> Tr{ {0,0},{4,-3},{0.1,25} }, Pr{ {0,0},{0.25,0},{0.1,-0.05} };
	std::vector<double> K{ 1,2,-1,0.5,-0.1,7,0,1e-12 };
	section( "matrix" );
	for( auto& a: A ) for( auto& t: Tr ) for( auto& p: Pr ) for( double k: K )
	{
		M3 m{{ {a[0],a[1],t[0]},{a[2],a[3],t[1]},{p[0],p[1],k} }};
		matCase<double>( m, th ); matCase<float>( m, th ); matCase<long double>( m, th );
	}
	section( "bad-matrix" );
	for( int k=0;k<4;k++ ) for( auto rc: std::vector<std::pair<int,int>>{ {3,3},{2,3},{3,2},{4,3},{3,4},{4,4},{1,9},{9,1},{1,1},{2,2},{0,0} } )
		for( int type: { CV_64F,CV_32F,CV_8U,CV_8S,CV_16U,CV_16S,CV_32S,CV_64FC2,CV_32FC3,CV_8UC3,CV_32FC2 } )
		{
			if( rc.first==3 && rc.second==3 && ( type==CV_64F || type==CV_32F ) ) continue;
			badMat<double>( rc.first, rc.second, type, k ); badMat<float>( rc.first, rc.second, type, k );
		}
	section( "vector-sizes" );
	for( int n=0;n<=4;n++ ) { std::vector<int> s(n,0); for(;;) { badVec<double,double>( s ); badVec<float,int>( s ); badVec<double,float>( s ); int i=0; while( i<n && ++s[i]==5 ) s[i++]=0; if( i==n ) break; } }
	section( "history" );
	std::vector<M3> ms_{ M3{{ {2,0.5,3},{-1,1,4},{0,0,2} }}, M3{{ {0,-1,5},{1,0,-2},{0.125,0,0.5} }}, M3{{ {1,0,0},{0,3,1},{0,0,-1} }} };
	{
		int D=th?5:4;
		for( int n=1;n<=D;n++ ) { std::vector<int> o(n,0); for(;;) { history<double>( o, ms_ ); if( n<4 ) { history<float>( o, ms_ ); history<long double>( o, ms_ ); } int i=0; while( i<n && ++o[i]==10 ) o[i++]=0; if( i==n ) break; } }
	}
	auto G=geo::grid(0,0,2,1);
	for( auto& e: geo::embeddings() )
	{
		std::string en=e.name; bool flt= en!="far" && en!="tiny";
		section( "polygon-"+en );
		for( int n=0;n<=( th?6:5 );n++ ) geo::sequences( n>4 ? geo::grid(0,0,1,1) : G, n, false, false, [&]( const Poly& p ){
			polyT<double>( p, e, flt );
			if( n<=4 ) { polyT<long double>( p, e, flt ); if( flt ) polyT<float>( p, e, flt ); }
		} );
	}
	section( "polygon-large" );
	for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) ) for( auto& e: geo::embeddings() ) { std::string en=e.name; polyT<double>( p, e, en!="far" && en!="tiny" ); }
	section( "image-size" );
	for( int r: { 0,1,2,3,10,480 } ) for( int c: { 0,1,2,5,640 } ) { rectCase<double>( r,c ); rectCase<float>( r,c ); rectCase<long double>( r,c ); }
	return finish();
}
