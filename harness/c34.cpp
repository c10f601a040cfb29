// C34: drawing on a raster image (OpenCV back-end) marks exactly the pixels along the object, in the given color.
// Reference: the ideal curve of the object, as a fine list of points computed here; no library code is used for it.
#define HOMOG2D_USE_OPENCV
#define HOMOG2D_ENABLE_VRTP
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
using namespace mc; using namespace h2d;
typedef img::Image<cv::Mat> Im;
struct V { double x,y; };
struct Seg { V a,b; };
static const double PI=std::acos(-1.);

// ---------------------------------------------------------------- ideal shapes
struct Shape { std::vector<Seg> s; double tol=1.5; bool filled=false; };
static double dseg( double x, double y, const Seg& s )
{
	double dx=s.b.x-s.a.x, dy=s.b.y-s.a.y, n=dx*dx+dy*dy, t= n==0?0:( (x-s.a.x)*dx+(y-s.a.y)*dy )/n; t=std::max(0.,std::min(1.,t));
	return std::hypot( x-s.a.x-t*dx, y-s.a.y-t*dy );
}
static double dist( double x, double y, const Shape& s ) { double d=1e300; for( auto& e: s.s ) d=std::min( d, dseg(x,y,e) ); return d; }
static void add( Shape& s, V a, V b ) { s.s.push_back( {a,b} ); }
static Shape arc( double cx, double cy, double a, double b, double th )
{
	Shape s; const int n=120; auto at=[&]( int k ){ double t=2*PI*k/n, u=a*std::cos(t), v=b*std::sin(t); return V{ cx+u*std::cos(th)-v*std::sin(th), cy+u*std::sin(th)+v*std::cos(th) }; };
	for( int k=0;k<n;k++ ) add( s, at(k), at(k+1) );
	return s;
}
enum { PLUS, TIMES, STAR, DIAM, SQU, DOT };
static void marker( Shape& s, double x, double y, int style, int size, int delta, int W, int H )
{
	if( x<0 || y<0 || x>=W || y>=H ) return;
	double d=delta, e=std::round(0.7*delta);
	if( style==PLUS || style==STAR ) { add( s,{x-d,y},{x+d,y} ); add( s,{x,y-d},{x,y+d} ); }
	if( style==TIMES || style==STAR ) { add( s,{x-e,y-e},{x+e,y+e} ); add( s,{x-e,y+e},{x+e,y-e} ); }
	if( style==DIAM ) { add( s,{x-d,y},{x,y-d} ); add( s,{x,y-d},{x+d,y} ); add( s,{x+d,y},{x,y+d} ); add( s,{x,y+d},{x-d,y} ); }
	if( style==SQU ) { add( s,{x-e,y-e},{x+e,y-e} ); add( s,{x+e,y-e},{x+e,y+e} ); add( s,{x+e,y+e},{x-e,y+e} ); add( s,{x-e,y+e},{x-e,y-e} ); }
	if( style==DOT ) for( auto& q: arc(x,y,size,size,0).s ) s.s.push_back(q);
}
static void join( Shape& s, const Shape& o ) { s.s.insert( s.s.end(), o.s.begin(), o.s.end() ); s.tol=std::max(s.tol,o.tol); }

// ---------------------------------------------------------------- parameters
struct P { int r=10,g=120,b=200, th=1, size=5, style=PLUS; bool sp=false; };
static img::DrawParams dp( const P& p )
{ img::DrawParams d; d.setColor(p.r,p.g,p.b).setThickness(p.th).setPointSize(p.size).setPointStyle((img::PtStyle)p.style).showPoints(p.sp); return d; }
static bool white( const cv::Vec3b& c ) { return c[0]==255 && c[1]==255 && c[2]==255; }

/// changed pixels against the ideal shape
static void verify( const cv::Mat& m, const Shape& s, const P& p, const char* tag, bool color=true, bool complete=true )
{
	step();
	double tol=s.tol+0.5+( p.th>1 ? p.th-1 : 0 ); int n=0; int W=m.cols, H=m.rows; std::vector<V> px; double best=0;
	double k2=0; { double a=255-p.b,b=255-p.g,c=255-p.r; k2=a*a+b*b+c*c; }
	for( int y=0;y<H;y++ ) for( int x=0;x<W;x++ )
	{
		auto c=m.at<cv::Vec3b>(y,x); if( white(c) ) continue;
		n++; px.push_back( {(double)x,(double)y} );
		double d=s.s.empty()?1e9:dist(x,y,s);
		if( !check( d<=tol, "stray", [&]{ return str( tag,": pixel ",x,',',y," is changed, ",d," away from the object" ); } ) ) return;
		if( color )
		{
			double a=( (255.-c[0])*(255-p.b)+(255.-c[1])*(255-p.g)+(255.-c[2])*(255-p.r) )/k2; best=std::max(best,a);
			bool ok= std::fabs( 255-a*(255-p.b)-c[0] )<=6 && std::fabs( 255-a*(255-p.g)-c[1] )<=6 && std::fabs( 255-a*(255-p.r)-c[2] )<=6 && a<=1.03;
			if( !check( ok, "color", [&]{ return str( tag,": pixel ",x,',',y," is ",(int)c[2],'-',(int)c[1],'-',(int)c[0] ); } ) ) return;
		}
	}
	outcome( mix( n, mix( W, H ) ) );
	if( !complete ) return;
	bool any=false;
	for( auto& e: s.s )
	{
		double l=std::hypot( e.b.x-e.a.x, e.b.y-e.a.y ); int k=std::max(1,(int)std::ceil(l)); 
		for( int i=0;i<=k;i++ )
		{
			double x=e.a.x+(e.b.x-e.a.x)*i/k, y=e.a.y+(e.b.y-e.a.y)*i/k; double in=s.tol-1; if( x<in || y<in || x>W-1-in || y>H-1-in ) continue;
			any=true; bool ok=false; int x0=(int)x, y0=(int)y, t=(int)tol+1;
			for( int v=std::max(0,y0-t);v<=std::min(H-1,y0+t)&&!ok;v++ ) for( int u=std::max(0,x0-t);u<=std::min(W-1,x0+t)&&!ok;u++ ) ok= std::hypot(u-x,v-y)<=tol && !white(m.at<cv::Vec3b>(v,u));
			if( !check( ok, "missing", [&]{ return str( tag,": nothing is drawn near ",x,',',y ); } ) ) return;
		}
	}
	if( any && color ) check( best>0.35, "pale", [&]{ return str( tag,": ",best ); } );
}
static bool same( const cv::Mat& a, const cv::Mat& b ) { return a.rows==b.rows && a.cols==b.cols && a.type()==b.type() && cv::norm( a, b, cv::NORM_INF )==0; }
static const int W0=40, H0=30;

/// one object: the three ways of drawing it, and its image
template<class O> void object( const O& o, Shape s, const P& p, const char* tag, bool color=true, bool complete=true )
{
	Im im( W0, H0 ), i2( W0, H0 ), i3( W0, H0 ); auto d=dp(p); auto keep=o;
	o.draw( im, d ); draw( i2, o, d ); i3.draw( o, d );
	verify( im.getReal(), s, p, tag, color, complete );
	check( same(im.getReal(),i2.getReal()) && same(im.getReal(),i3.getReal()), "ways", tag );
	check( keep==o, "object", tag );
}
template<class T> Point2d_<T> pt( V v ) { return Point2d_<T>( v.x, v.y ); }
static bool integral( double v ) { return v==std::floor(v); }
static double frac( std::initializer_list<V> l ) { for( auto& v: l ) if( !integral(v.x) || !integral(v.y) ) return 2.5; return 1.5; }
static Shape segShape( V a, V b, bool oriented )
{
	Shape s; s.tol=frac({a,b}); add( s,a,b );
	if( oriented )
	{
		double l=std::hypot(b.x-a.x,b.y-a.y), ux=(b.x-a.x)/l, uy=(b.y-a.y)/l; const double k=8; V q{ b.x-k*ux, b.y-k*uy };
		if( l<k/2+0.01 ) q={ b.x-k*ux, b.y-k*uy };
		add( s,{a.x-k*uy,a.y+k*ux},{a.x+k*uy,a.y-k*ux} ); add( s,b,{q.x-k*uy,q.y+k*ux} ); add( s,b,{q.x+k*uy,q.y-k*ux} ); s.tol=2.5;
	}
	return s;
}
/// part of a line (two points on it) in the image
static bool clip( V a, V b, Seg& r )
{
	double t0=-1e9,t1=1e9, dx=b.x-a.x, dy=b.y-a.y;
	auto f=[&]( double p, double q ){ if( p==0 ) return q>=0; double t=q/p; if( p<0 ) t0=std::max(t0,t); else t1=std::min(t1,t); return true; };
	if( !f(-dx,a.x) || !f(dx,W0-1-a.x) || !f(-dy,a.y) || !f(dy,H0-1-a.y) || t0>t1 ) return false;
	r={ {a.x+t0*dx,a.y+t0*dy}, {a.x+t1*dx,a.y+t1*dy} }; return true;
}
static Shape lineShape( V a, V b, bool& sure ) { Shape s; Seg r; s.tol=2; sure=true; if( clip(a,b,r) ) { s.s.push_back(r); sure=std::hypot(r.a.x-r.b.x,r.a.y-r.b.y)>1; } return s; }
template<bool C,class T> base::PolylineBase<std::conditional_t<C,typ::IsClosed,typ::IsOpen>,T> poly( const std::vector<V>& v ) { std::vector<Point2d_<T>> w; for( auto& q: v ) w.push_back( pt<T>(q) ); return base::PolylineBase<std::conditional_t<C,typ::IsClosed,typ::IsOpen>,T>( w ); }
static Shape polyShape( const std::vector<V>& v, bool closed ) { Shape s; for( size_t i=0;i+1<v.size();i++ ) { add( s, v[i], v[i+1] ); } if( closed ) add( s, v.back(), v[0] ); for( auto& q: v ) s.tol=std::max( s.tol, frac({q}) ); return s; }
static std::string ps( const P& p ) { return str( " color=",p.r,'-',p.g,'-',p.b," th=",p.th," size=",p.size," style=",p.style,p.sp?" points":"" ); }

template<class T> void all( const char* tn )
{
	bool th=thorough();
	std::vector<P> cols{ {}, {250,0,0,1,5,PLUS,false}, {0,0,0,3,3,TIMES,true}, {0,200,30,2,7,SQU,true}, {0,100,130,1,3,DOT,true} };
	section( str("points-",tn) );
	for( double x: {-3.,-0.5,0.,0.3,1.,19.,20.5,38.,39.,39.4,40.,43.} ) for( double y: {-2.,0.,0.2,14.,14.5,28.,29.,29.4,30.,35.} ) for( int st=0;st<6;st++ ) for( int sz: {1,3,5,9} ) for( int t: {1,2,3} )
	{
		if( !th && t==2 && sz!=5 ) continue;
		P p; p.style=st; p.size=sz; p.th=t; run( [&]{ Shape s; s.tol=frac({{x,y}})+(st==DOT?0.3:0); marker( s, x, y, st, sz, sz, W0, H0 ); object( Point2d_<T>( x, y ), s, p, "point" ); }, [&]{ return str( x,',',y,ps(p) ); } );
	}
	section( str("segments-",tn) );
	std::vector<V> g; for( double x: {-20.,-3.,0.,11.,25.5,39.,47.} ) for( double y: {-15.,0.,7.,18.5,29.,41.} ) g.push_back( {x,y} );
	for( auto& a: g ) for( auto& b: g ) if( a.x!=b.x || a.y!=b.y ) for( auto& p: cols ) run( [&]{
		Shape s=segShape(a,b,false); if( p.sp ) { marker( s,a.x,a.y,p.style,p.size,p.size,W0,H0 ); marker( s,b.x,b.y,p.style,p.size,p.size,W0,H0 ); }
		object( Segment_<T>( pt<T>(a), pt<T>(b) ), s, p, "segment" );
		object( OSegment_<T>( pt<T>(a), pt<T>(b) ), segShape(a,b,true), p, "oriented segment" );
	}, [&]{ return str( a.x,',',a.y,' ',b.x,',',b.y,ps(p) ); } );
	section( str("lines-",tn) );
	std::vector<V> gl; for( double x: {-20.,0.,11.,25.5,39.,47.} ) for( double y: {-15.,0.,7.,18.5,29.,41.} ) gl.push_back( {x,y} );
	for( auto& a: gl ) for( auto& b: gl ) if( a.x<b.x || ( a.x==b.x && a.y<b.y ) ) for( auto& p: cols ) run( [&]{
		bool sure; Shape s=lineShape(a,b,sure); if( sizeof(T)==4 ) sure=sure&&s.s.size()&&std::hypot(s.s[0].a.x-s.s[0].b.x,s.s[0].a.y-s.s[0].b.y)>3;
		// along the border or through a corner, rounding decides whether the line meets the image
		bool corner=false; for( auto& c: { V{0,0},V{W0-1.,0},V{0,H0-1.},V{W0-1.,H0-1.} } ) corner|= std::fabs( (b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x) )<1e-6*std::hypot(b.x-a.x,b.y-a.y);
		bool exact = sizeof(T)>4;
		if( corner && s.s.size() && !sure ) { object( pt<T>(a)*pt<T>(b), s, p, "line", true, false ); return; }
		object( pt<T>(a)*pt<T>(b), s, p, "line", true, sure && ( exact || !corner ) );
	}, [&]{ return str( a.x,',',a.y,' ',b.x,',',b.y,ps(p) ); } );
	section( str("rectangles-",tn) );
	for( auto& a: g ) for( auto& b: g ) if( a.x<b.x && a.y<b.y ) for( auto& p: cols ) run( [&]{
		Shape s; s.tol=frac({a,b}); add(s,a,{b.x,a.y}); add(s,{b.x,a.y},b); add(s,b,{a.x,b.y}); add(s,{a.x,b.y},a);
		if( p.sp ) { marker( s,a.x,a.y,p.style,p.size,p.size,W0,H0 ); marker( s,b.x,b.y,p.style,p.size,p.size,W0,H0 ); }
		object( FRect_<T>( pt<T>(a), pt<T>(b) ), s, p, "rectangle" );
	}, [&]{ return str( a.x,',',a.y,' ',b.x,',',b.y,ps(p) ); } );
	section( str("circles-",tn) );
	for( auto& a: g ) for( double r: {1.,2.,5.,9.5,12.,25.,33.3} ) for( auto& p: cols ) run( [&]{
		Shape s=arc( a.x,a.y,r,r,0 ); s.tol=frac({a})+(integral(r)?0.3:1.2); if( p.sp ) marker( s,a.x,a.y,PLUS,p.size,p.size,W0,H0 );
		object( Circle_<T>( pt<T>(a), (T)r ), s, p, "circle" );
	}, [&]{ return str( a.x,',',a.y," r=",r,ps(p) ); } );
	section( str("ellipses-",tn) );
	for( V a: { V{20,15}, V{20.5,14.5}, V{0,0}, V{35,5}, V{-6,20}, V{10,36} } ) for( double A: {3.,7.,12.5,20.} ) for( double B: {2.,5.,7.,11.5} ) for( int k=0;k<12;k++ ) for( auto& p: cols ) run( [&]{
		double t=k*PI/12; Shape s=arc( a.x,a.y,std::max(A,B),std::min(A,B),t ); s.tol=4;
		object( Ellipse_<T>( (T)a.x, (T)a.y, A, B, t ), s, p, "ellipse" );
	}, [&]{ return str( a.x,',',a.y,' ',A,' ',B,' ',k*15,ps(p) ); } );
	section( str("polylines-",tn) );
	std::vector<V> gp; for( double x: {-4.,6.,20.5,34.} ) for( double y: {-3.,12.,27.} ) gp.push_back( {x,y} );
	std::vector<std::vector<V>> lists; for( auto& a: gp ) for( auto& b: gp ) for( auto& c: gp ) if( &a!=&b && &b!=&c && &a!=&c ) { lists.push_back( {a,b,c} ); for( size_t k=0;k<gp.size();k+=th?1:4 ) if( &gp[k]!=&a && &gp[k]!=&b && &gp[k]!=&c ) lists.push_back( {a,b,c,gp[k]} ); }
	for( int n: {8,9,12,13,17,24,33,64} ) for( int sh=0;sh<3;sh++ )    // many points
	{
		std::vector<V> l; for( int i=0;i<n;i++ ) l.push_back( sh==0 ? V{ -4+double(i*50/n), i%2?22.:5. } : sh==1 ? V{ double((i*17)%43)-1, double((i*11)%31)-1 } : V{ std::round(20+14*std::cos(2*PI*i/n)), std::round(15+11*std::sin(2*PI*i/n)) } );
		bool dup=false; for( int i=0;i<n;i++ ) { auto &a=l[i], &b=l[(i+1)%n]; dup|= a.x==b.x && a.y==b.y; } if( !dup ) lists.push_back(l);
	}
	for( auto& l: lists ) for( auto& p: cols )
	{
		if( !th && p.th==3 ) continue;
		run( [&]{
			Shape so=polyShape(l,false), sc=polyShape(l,true);
			if( p.sp ) for( auto& q: l ) { marker( so,q.x,q.y,p.style,p.size,p.size,W0,H0 ); marker( sc,q.x,q.y,p.style,p.size,p.size,W0,H0 ); }
			if( p.sp ) { int nx=(p.style+1)%6; V q=l[0]; marker( so,q.x,q.y,nx,p.size,p.size,W0,H0 ); marker( sc,q.x,q.y,nx,p.size,p.size,W0,H0 ); }  // the first point is shown in another style
			object( poly<false,T>(l), so, p, "open polyline", !p.sp ); object( poly<true,T>(l), sc, p, "closed polyline", !p.sp );
		}, [&]{ std::string s; for( auto& q: l ) s+=str('(',q.x,',',q.y,')'); return s+ps(p); } );
	}
}

// ---------------------------------------------------------------- labels
/// the writing on a polyline is next to its points, and nothing else changes
static void labels()
{
	section( "labels" );
	for( int n=3;n<=5;n++ ) for( int closed=0;closed<2;closed++ ) for( int what=1;what<4;what++ ) run( [&]{
		std::vector<V> l{ {15,30},{90,40},{70,95},{30,100},{10,60} }; l.resize(n);
		img::DrawParams d=dp(P{}), d0=d; d.showIndex( what&1 ).showAngles( what&2 );
		auto go=[&]( auto pl ) { Im a(150,120), b(150,120); pl.draw( a, d ); pl.draw( b, d0 ); cv::Mat df; cv::absdiff( a.getReal(), b.getReal(), df ); step(2);
			std::vector<int> near(n,0);
			for( int y=0;y<120;y++ ) for( int x=0;x<150;x++ ) { auto c=df.at<cv::Vec3b>(y,x); if( !c[0] && !c[1] && !c[2] ) continue; bool ok=false; for( int i=0;i<n;i++ ) if( x>=l[i].x-3 && y<=l[i].y+5 && y>=l[i].y-22 && ( what&2 || x<=l[i].x+16 ) ) { ok=true; near[i]++; } check( ok, "stray", [&]{ return str( "label pixel at ",x,',',y ); } ); }
			for( int i=0;i<n;i++ ) if( (what&1) || closed || ( i>0 && i+1<n ) ) check( near[i]>0, "missing", [&]{ return str( "no label at point ",i ); } );
			outcome( mix(n,near[0]) ); };
		if( closed ) go( poly<true,double>(l) ); else go( poly<false,double>(l) );
	}, [&]{ return str( n," points ",closed?"closed ":"open ",what ); } );
	section( "labels-large" );
	for( int n: {8,9,10,11,12,13,16,17,24,33,42} ) for( int closed=0;closed<2;closed++ ) for( int what=1;what<4;what++ ) run( [&]{
		std::vector<V> l; for( int i=0;i<n;i++ ) { int r=i/6, c=r%2 ? 5-i%6 : i%6; l.push_back( {10.+c*45,30.+r*30+(i%2)} ); }
		img::DrawParams d=dp(P{}), d0=d; d.showIndex( what&1 ).showAngles( what&2 );
		auto go=[&]( auto pl ) { Im a(400,240), b(400,240); pl.draw( a, d ); pl.draw( b, d0 ); cv::Mat df; cv::absdiff( a.getReal(), b.getReal(), df ); step(2);
			for( int i=0;i<n;i++ ) { int c=0; for( int y=std::max(0,(int)l[i].y-22);y<l[i].y+5;y++ ) for( int x=l[i].x-3;x<l[i].x+16;x++ ) { auto q=df.at<cv::Vec3b>(y,x); if( q[0]||q[1]||q[2] ) c++; }
				if( (what&1) || closed || ( i>0 && i+1<n ) ) check( c>0, "missing", [&]{ return str( "no label at point ",i ); } ); outcome( mix(i,c) ); } };
		if( closed ) go( poly<true,double>(l) ); else go( poly<false,double>(l) );
	}, [&]{ return str( n," points ",closed?"closed ":"open ",what ); } );
	// the angles are those between consecutive edges, in degrees, written at their common point
	section( "angles" );
	std::vector<V> g2; for( int i=0;i<9;i++ ) g2.push_back( {20.+50*(i%3),30.+35*(i/3)} );
	for( int n=3;n<=4;n++ ) for( int code=0;code<(n==3?729:6561);code++ )
	{
		std::vector<V> l; bool bad=false; for( int k=0,c=code;k<n;k++,c/=9 ) { for( auto& q: l ) bad|= q.x==g2[c%9].x && q.y==g2[c%9].y; l.push_back(g2[c%9]); }
		if( bad || ( n==4 && !thorough() && code%7 ) ) continue;
		run( [&]{
			for( int closed=0;closed<2;closed++ )
			{
				auto go=[&]( auto pl ) { Im a(200,140), b(200,140); P p; auto d=dp(p), da=d; da.showAngles(); pl.draw( a, da ); pl.draw( b, d );
					auto put=[&]( int i ) { V u=l[(i+n-1)%n], v=l[i], w=l[(i+1)%n]; double x1=v.x-u.x,y1=v.y-u.y,x2=w.x-v.x,y2=w.y-v.y; drawText( b, std::to_string( std::atan2( x1*y2-y1*x2, x1*x2+y1*y2 )*180/PI ), Point2d( v.x, v.y ), d ); };
					for( int i=1;i+1<n;i++ ) put(i); if( closed ) { put(n-1); put(0); }
					step(); check( same(a.getReal(),b.getReal()), "angles", closed?"closed":"open" ); int c=0; for( int y=0;y<140;y++ ) for( int x=0;x<200;x++ ) c+=!white(a.getReal().at<cv::Vec3b>(y,x)); outcome(c); };
				if( closed ) go( poly<true,double>(l) ); else go( poly<false,double>(l) );
			}
		}, [&]{ std::string s; for( auto& q: l ) s+=str('(',q.x,',',q.y,')'); return s; } );
	}
	section( "text" );
	for( double x: {5.,40.5} ) for( double y: {30.,60.} ) for( int fs: {10,20,30} ) for( const char* t: {"A","homog","-12.5"} ) for( P p: { P{}, P{200,0,0} } ) run( [&]{
		Im a(300,80), b(300,80); auto d=dp(p); d.setFontSize(fs); a.drawText( t, Point2d_<float>(x,y), d ); drawText( b, t, Point2d_<double>(x,y), d ); step(2);
		int n=0; bool ok=true, col=false; for( int v=0;v<80;v++ ) for( int u=0;u<300;u++ ) { auto c=a.getReal().at<cv::Vec3b>(v,u); if( white(c) ) continue; n++; ok=ok && u>=x-4 && v<=y+2+fs*0.4 && v>=y-4-fs*0.9 && u<=x+5+strlen(t)*fs; if( c==cv::Vec3b(p.b,p.g,p.r) ) col=true; }
		check( n>0 && ok, "text", [&]{ return str( n," pixels" ); } ); check( col, "color", "text color" ); check( same(a.getReal(),b.getReal()), "ways", "free function" ); outcome(n);
	}, [&]{ return str( t," at ",x,',',y," size ",fs,ps(p) ); } );
}

// ---------------------------------------------------------------- containers, variants, pairs
static void containers()
{
	section( "containers" );
	typedef CommonType_<double> CT;
	std::vector<CT> pool{ Segment(2,3,30,20), OSegment(35,25,12,8), Point2d(20,10), Line2d( Point2d(0,5), Point2d(39,20) ), Circle( Point2d(15,15), 8 ), Ellipse( 25.,14.,9.,4.,0.5 ), FRect( 5,5,33,24 ), poly<true,double>( {{3,3},{30,8},{20,27}} ), poly<false,double>( {{36,2},{30,25},{4,20}} ) };
	auto one=[&]( Im& im, const CT& o, const img::DrawParams& d ) { std::visit( [&]( const auto& x ){ x.draw( im, d ); }, o ); step(); };
	P pa, pb{200,30,0,2,7,SQU,true};
	for( int n=0;n<=3;n++ ) { std::vector<int> idx(n); std::function<void(int)> rec=[&]( int k ) {
		if( k<n ) { for( size_t i=0;i<pool.size();i++ ) { idx[k]=i; rec(k+1); } return; }
		run( [&]{
			for( auto& p: {pa,pb} ) { auto d=dp(p); Im ref(W0,H0), a(W0,H0), b(W0,H0); std::vector<CT> v; std::list<CT> l; for( int i: idx ) { one( ref, pool[i], d ); v.push_back(pool[i]); l.push_back(pool[i]); }
				draw( a, v, d ); draw( b, l, d ); check( same(ref.getReal(),a.getReal()) && same(ref.getReal(),b.getReal()), "variants", "differs from drawing one by one" ); outcome( mix(n, n?idx[0]:0) ); }
		}, [&]{ std::string s="objects"; for( int i: idx ) s+=str(' ',i); return s; } ); };
		rec(0); }
	section( "typed-containers" );
	auto typed=[&]( const char* nm, auto objs ) {
		typedef typename decltype(objs)::value_type O;
		for( int m=0;m<8;m++ ) run( [&]{
			std::vector<O> v; for( int i=0;i<3;i++ ) if( m>>i&1 ) v.push_back( objs[i] );
			for( auto& p: {pa,pb} )
			{
				auto d=dp(p); Im ref(W0,H0), a(W0,H0), b(W0,H0), c(W0,H0); for( auto& o: v ) o.draw( ref, d ); std::list<O> l( v.begin(), v.end() );
				draw( a, v, d ); draw( b, l, d ); step(2); check( same(ref.getReal(),a.getReal()) && same(ref.getReal(),b.getReal()), "container", nm );
				if( v.size()==3 ) { std::array<O,3> ar{ v[0],v[1],v[2] }; draw( c, ar, d ); check( same(ref.getReal(),c.getReal()), "array", nm ); }
				if( v.size()==2 ) { auto pr=std::make_pair( v[0], v[1] ); draw( c, pr, d ); Im c2(W0,H0); c2.draw( pr, d ); check( same(ref.getReal(),c.getReal()) && same(ref.getReal(),c2.getReal()), "pair", nm ); }
				std::function<img::DrawParams(int)> f=[&]( int i ) { P q=p; q.r=40*i+5; q.th=1+i; return dp(q); };
				Im r2(W0,H0), a2(W0,H0); for( size_t i=0;i<v.size();i++ ) v[i].draw( r2, f(i) ); draw( a2, v, f ); step(2);
				check( same(r2.getReal(),a2.getReal()), "function", nm ); outcome( mix(m,p.th) );
				// indexes next to points and segments, one after the other
				auto di=d; di.showIndex(); Im ri(W0,H0), ai(W0,H0), af(W0,H0); std::function<img::DrawParams(int)> g=[&]( int ) { return di; };
				if constexpr( std::is_same_v<O,Point2d> || std::is_same_v<O,Segment> )
				{
					for( size_t i=0;i<v.size();i++ ) { v[i].draw( ri, d ); Point2d q; if constexpr( std::is_same_v<O,Point2d> ) q=v[i]; else q=Point2d( (v[i].getPts().first.getX()+v[i].getPts().second.getX())/2, (v[i].getPts().first.getY()+v[i].getPts().second.getY())/2 ); ri.drawText( std::to_string(i), q, d ); }
					draw( ai, v, di ); draw( af, v, g ); step(2); check( same(ri.getReal(),ai.getReal()) && same(ri.getReal(),af.getReal()), "indexes", nm );
				}
			}
		}, [&]{ return str( nm," subset ",m ); } ); };
	typed( "segments", std::vector<Segment>{ Segment(2,3,30,20), Segment(0,29,39,0), Segment(-5,10,60,12) } );
	typed( "oriented segments", std::vector<OSegment>{ OSegment(2,3,30,20), OSegment(39,0,0,29), OSegment(-5,10,60,12) } );
	typed( "points", std::vector<Point2d>{ Point2d(2,3), Point2d(20,15), Point2d(50,12) } );
	typed( "lines", std::vector<Line2d>{ Line2d(1,1), Line2d( Point2d(0,20),Point2d(40,3) ), Line2d( LineDir::H, 7 ) } );
	typed( "circles", std::vector<Circle>{ Circle(Point2d(10,10),5), Circle(Point2d(20,15),12), Circle(Point2d(45,12),9) } );
	typed( "ellipses", std::vector<Ellipse>{ Ellipse(10.,10.,5.,3.,0.2), Ellipse(20.,15.,12.,4.,1.), Ellipse(42.,12.,9.,9.,0.) } );
	typed( "rectangles", std::vector<FRect>{ FRect(1,2,20,12), FRect(-4,5,60,20), FRect(10,-5,20,50) } );
	typed( "closed polylines", std::vector<CPolyline>{ poly<true,double>({{3,3},{30,8},{20,27}}), poly<true,double>({{-3,13},{50,8},{20,40}}), poly<true,double>({{1,1},{38,1},{38,28},{1,28}}) } );
	typed( "open polylines", std::vector<OPolyline>{ poly<false,double>({{3,3},{30,8},{20,27}}), poly<false,double>({{-3,13},{50,8}}), poly<false,double>({{1,1},{38,1},{38,28},{1,28}}) } );
}

// ---------------------------------------------------------------- histories of an image
struct Hist
{
	static const int NOP=14;
	struct Call { int what; P p; };
	static void one( Im& im, const Call& c )
	{
		auto d=dp(c.p); step();
		switch( c.what )
		{
			case 0: Segment(2,3,70,45).draw( im, d ); break;
			case 1: Circle( Point2d(20,18), 11 ).draw( im, d ); break;
			case 2: Line2d( Point2d(0,5), Point2d(80,40) ).draw( im, d ); break;
			case 3: Point2d( 47, 21 ).draw( im, d ); break;
			case 4: poly<true,double>( {{3,3},{60,8},{20,27}} ).draw( im, d ); break;
		}
	}
	static void go( const std::vector<int>& ops )
	{
		Im im( W0, H0 ); int w=W0,h=H0; img::Color bg(255,255,255); std::vector<Call> list; P p{10,120,200,1,5,PLUS,false}, q{220,10,0,2,7,DIAM,true};
		for( int o: ops )
		{
			switch( o )
			{
				case 0: case 1: case 2: case 3: case 4: list.push_back( {o,p} ); one( im, list.back() ); break;
				case 5: list.push_back( {4,q} ); one( im, list.back() ); break;
				case 6: im.clear(); bg=img::Color(255,255,255); list.clear(); break;
				case 7: im.clear( 10, 20, 250 ); bg=img::Color(10,20,250); list.clear(); break;
				case 8: im.clear( 128 ); bg=img::Color(128,128,128); list.clear(); break;
				case 9: im.clear( img::Color(1,200,3) ); bg=img::Color(1,200,3); list.clear(); break;
				case 10: im.setSize( 61, 33 ); w=61; h=33; bg=img::Color(255,255,255); list.clear(); break;
				case 11: im.setSize( std::make_pair(25,52) ); w=25; h=52; bg=img::Color(255,255,255); list.clear(); break;
				case 12: { Im c( 9, 9 ); c.clear(7); one( c, {0,q} ); } break;                       // another image
				case 13: { cv::Mat keep=im.getReal().clone(); Im c( keep ); one( c, {3,q} ); one( c, {2,q} ); c.clear(9); } break;     // an image on a copy of the pixels
			}
			check( im.cols()==w && im.rows()==h && im.size()==std::make_pair((size_t)w,(size_t)h) && im.getReal().cols==w && im.getReal().rows==h, "size", "image size" );
		}
		// reference: a new image of that size, on which the calls are made again
		Im ref( w, h ); ref.getReal()=cv::Scalar( bg.b, bg.g, bg.r ); for( auto& c: list ) one( ref, c );
		check( same( im.getReal(), ref.getReal() ), "pixels", "differs from a new image with the same calls" );
		int n=0; for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) { auto c=ref.getReal().at<cv::Vec3b>(y,x); if( c!=cv::Vec3b(bg.b,bg.g,bg.r) ) n++; } outcome( mix(n,mix(w,list.size())) );
		if( list.empty() ) check( n==0, "clear", "not uniform" );
		// an image built on an existing matrix: same size, same drawing
		cv::Mat m( h, w, CV_8UC3, cv::Scalar( bg.b, bg.g, bg.r ) ); Im on( m ); check( on.cols()==w && on.rows()==h && on.size()==std::make_pair((size_t)w,(size_t)h), "mat-size", "size of an image built on a matrix" );
		for( auto& c: list ) one( on, c ); check( same( on.getReal(), im.getReal() ), "mat-pixels", "image built on a matrix" );
	}
};
static void histories()
{
	section( "histories" );
	std::vector<int> a; for( int i=0;i<Hist::NOP;i++ ) a.push_back(i);
	for( int n=0;n<=(thorough()?4:3);n++ )
	{
		std::vector<int> c(n); std::function<void(int)> rec=[&]( int k ) { if( k==n ) { run( [&]{ Hist::go(c); }, [&]{ std::string s="ops"; for( int o: c ) s+=str(' ',o); return s; } ); return; } for( int o: a ) { c[k]=o; rec(k+1); } }; rec(0);
	}
	section( "small" );
	for( int w=1;w<=6;w++ ) for( int h=1;h<=6;h++ ) run( [&]{
		Im im( w, h ); auto d=dp(P{}); Line2d li( Point2d(0,0), Point2d(5,4) ); step();
		int t=thrown([&]{ li.draw( im, d ); }); check( t==( w<3||h<3 ? 1 : 0 ), "line", [&]{ return str( "drawing a line: ",t ); } );
		Im i2( w, h ); check( thrown([&]{ Point2d(0,0).draw( i2, d ); Segment(0,0,9,9).draw( i2, d ); Circle( Point2d(1,1), 2 ).draw( i2, d ); })==0, "small", "exception" ); outcome( mix(w,h) );
	}, [&]{ return str( w,'x',h ); } );
	section( "files" );
	for( int k=0;k<5;k++ ) run( [&]{
		char f[]="/tmp/c34XXXXXX.png"; int fd=mkstemps( f, 4 ); if( fd<0 ) return; close(fd);
		Im im( 31, 17 ); Hist::one( im, {k,P{}} ); im.write( f ); cv::Mat m=cv::imread( f ); unlink( f ); step(); outcome(k);
		check( same( m, im.getReal() ), "file", "what is read back differs" );
	}, [&]{ return str( "call ",k ); } );
}
int main( int argc, char** argv )
{
	init( argc, argv ); cv::setNumThreads( 1 );
	all<double>( "double" );
	all<float>( "float" );
	if( thorough() ) all<long double>( "long double" );
	labels(); containers(); histories();
	return finish();
}
