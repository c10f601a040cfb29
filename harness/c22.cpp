// C22: ellipse parameters, boxes, inside test and comparison, after construction and after every short history.
// Reference: center c and matrix L, the ellipse being the image of the unit circle by p -> L.p + c
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using namespace h2d;
static const double PI=std::acos(-1.);

struct Ref
{
	double cx,cy,l00,l01,l10,l11;
	static Ref mk( double x, double y, double a, double b, double th ) { double c=std::cos(th), s=std::sin(th); return { x,y, a*c,-b*s, a*s,b*c }; }
	/// general affine map applied
	void map( double a, double b, double tx, double c, double d, double ty )
	{
		Ref r{ a*cx+b*cy+tx, c*cx+d*cy+ty, a*l00+b*l10, a*l01+b*l11, c*l00+d*l10, c*l01+d*l11 }; *this=r;
	}
	// S = L.Lt
	double sxx() const { return l00*l00+l01*l01; } double syy() const { return l10*l10+l11*l11; } double sxy() const { return l00*l10+l01*l11; }
	double det() const { return std::fabs(l00*l11-l01*l10); }
	double maj() const { double m=(sxx()+syy())/2, d=std::hypot( (sxx()-syy())/2, sxy() ); return std::sqrt(m+d); }
	double mnr() const { return det()/maj(); }
	double ang() const { return 0.5*std::atan2( 2*sxy(), sxx()-syy() ); }
	bool circ() const { return maj()-mnr() < 1e-9*maj(); }
	double val( double x, double y ) const { double dx=x-cx, dy=y-cy, D=l00*l11-l01*l10; double u=(l11*dx-l01*dy)/D, v=(-l10*dx+l00*dy)/D; return u*u+v*v; }
	double cond() const { double r=(std::hypot(cx,cy)+maj())/mnr(), q=maj()/mnr(); return (1+r*r)*q*q; }
};
static double perim( const Ref& r ) { double a=r.maj(), b=r.mnr(), s=0; const int n=512; for( int i=0;i<n;i++ ) { double t=2*PI*(i+0.5)/n; s+=std::hypot( a*std::sin(t), b*std::cos(t) ); } return s*2*PI/n; }

template<class T>
void agrees( const Ellipse_<T>& e, const Ref& r, double prec )
{
	step();
	double tol = ( sizeof(T)==4 ? 6e-7 : 4e-14 ) * r.cond() * prec * r.maj();
	if( tol>1e-3*r.mnr() ) return;                       // the representation itself is not accurate enough here
	auto c=e.getCenter(); auto mm=e.getMajMin(); double a=r.maj(), b=r.mnr();
	auto info=[&]{ return str( e," expected center ",r.cx,',',r.cy," axes ",a,' ',b," angle ",r.ang()*180/PI,"; center ",c," axes ",mm.first,' ',mm.second," angle ",e.angle()*180/PI," tol=",tol ); };
	check( near(c.getX(),r.cx,tol) && near(c.getY(),r.cy,tol) && c==getCenter(e), "center", info );
	check( mm.first>=mm.second && near(mm.first,a,tol) && near(mm.second,b,tol), "axes", info );
	double th=r.ang();
	if( !r.circ() && (a-b)>20*tol )
	{
		double d=std::remainder( (double)e.angle()-th, PI ), ta=4*tol/(a-b)+3e-8;   // (the angle is computed by a difference: about 1e-8 rad when the axes are nearly horizontal)
		check( std::fabs(d)<=ta && e.angle()==angle(e), "angle", info );
		auto al=e.getAxisLines(); auto al2=getAxisLines(e);
		check( al.first==al2.first && al.second==al2.second, "axis lines", info );
		double ux=std::cos(th), uy=std::sin(th), t2=tol+ta*a + 1e-12*(1+std::hypot(r.cx,r.cy));
		Point2d_<double> p0(r.cx,r.cy), pM(r.cx+a*ux,r.cy+a*uy), pm(r.cx-a*uy,r.cy+a*ux);
		if( sizeof(T)!=4 || std::hypot(r.cx,r.cy)<20 )
			check( al.first.distTo(p0)<=3*t2 && al.first.distTo(pM)<=3*t2 && al.second.distTo(p0)<=3*t2 && al.second.distTo(pm)<=3*t2, "axis lines", [&]{ return str( info(),' ',al.first,al.second,' ',al.first.distTo(p0),' ',al.first.distTo(pM),' ',al.second.distTo(p0),' ',al.second.distTo(pm) ); } );
		// oriented box: the four corners, up to rotation of the list
		auto ob=e.getOBB(); auto ob2=getOBB(e); auto pts=ob.getPts(); bool ok=pts.size()==4 && ob2.getPts().size()==4; bool ok2=true;
		if( ok )
		{
			for( int s1: {-1,1} ) for( int s2: {-1,1} )
			{
				double x=r.cx+s1*a*ux-s2*b*uy, y=r.cy+s1*a*uy+s2*b*ux; int n=0;
				for( auto& q: pts ) if( std::hypot( q.getX()-x, q.getY()-y )<=4*t2 ) n++;
				if( n!=1 ) ok=false;
			}
			if( ok ) for( int i=0;i<4;i++ ) { double l=std::hypot( pts[i].getX()-pts[(i+2)%4].getX(), pts[i].getY()-pts[(i+2)%4].getY() ); if( std::fabs(l-2*std::hypot(a,b))>10*t2 ) ok2=false; }
		}
		check( ok && ok2, "OBB", [&]{ return str( info(),' ',ob ); } );
	}
	double w=std::sqrt(r.sxx()), h=std::sqrt(r.syy());
	auto bb=e.getBB().getPts(); auto bf=getBB(e).getPts();
	for( auto* p: {&bb,&bf} ) check( near(p->first.getX(),r.cx-w,2*tol) && near(p->second.getX(),r.cx+w,2*tol) && near(p->first.getY(),r.cy-h,2*tol) && near(p->second.getY(),r.cy+h,2*tol), "BB", [&]{ return str( info(),' ',p->first,p->second ); } );
	check( near(e.area(),PI*a*b,8*tol*a) && near(area(e),PI*a*b,8*tol*a), "area", info );
	check( near(e.length(),perim(r),8*tol+1e-4*perim(r)) && length(e)==e.length(), "length", info );
	if( r.circ() ? tol*a<1e-12 && a==b : ( (a-b)*a>1e-3 || (a-b)>0.1*a ) ) check( e.isCircle()==r.circ() && isCircle(e)==r.circ(), "isCircle", info );
	check( isCircle(e,1e30), "isCircle", "user threshold ignored" ); if( !r.circ() && a-b>1e-2 ) check( !isCircle(e,1e-5), "isCircle", "user threshold" );
	// points: along 8 directions of the conic at ratios around 1, and a grid
	auto ask=[&]( double x, double y )
	{
		double v=r.val(x,y); double m=16*tol/r.mnr()*std::max(1.,v); if( std::fabs(v-1)<=m ) return;
		Point2d_<T> p( (T)x, (T)y ); v=r.val( p.getX(), p.getY() ); if( std::fabs(v-1)<=m ) return;
		check( p.isInside(e)==(v<1), "inside", [&]{ return str( info(),' ',p," v=",v ); } );
		check( e.pointIsInside(p)==(v<1), "inside", [&]{ return str( info(),' ',p," v=",v ); } );
	};
	for( int k=0;k<8;k++ ) for( double f: {0.,0.5,0.9,0.98,0.999,1.001,1.02,1.1,1.5,3.} ) { double t=PI*k/4+0.1; double u=f*std::cos(t), v=f*std::sin(t); ask( r.cx+r.l00*u+r.l01*v, r.cy+r.l10*u+r.l11*v ); }
	for( int x=-4;x<=4;x+=2 ) for( int y=-4;y<=4;y+=2 ) ask( x, y );
	Ellipse_<T> cp(e); check( cp==e && !(cp!=e) && e==cp, "compare", "a copy differs" );
	Ellipse_<double> cd(e); check( near(cd.getCenter().getX(),r.cx,tol) && near(cd.getMajMin().first,a,tol), "copy", "copy to double" );
	outcome( mix( mix(hd(r.cx),hd(a)), mix(hd(b),hd(th)) ) );
}

template<class T>
void build( double x, double y, double a, double b, double th )
{
	run( [&]{
		Ref r=Ref::mk( (T)x, (T)y, std::max(a,b), std::min(a,b), th );
		Ellipse_<T> e( x, y, a, b, th ); agrees( e, r, 1 );
		Ellipse_<T> e2( Point2d_<T>(x,y), a, b, th ); agrees( e2, r, 1 ); if( sizeof(T)!=4 ) check( e==e2, "compare", "constructors differ" );
		Ellipse_<T> e3( Point2d_<float>(x,y), (float)a, (float)b, (float)th ); agrees( e3, r, sizeof(T)==4?1:2e6 );
		if( a==b ) { Ellipse_<T> e4( Circle_<T>( Point2d_<T>(x,y), a ) ); agrees( e4, r, 1 ); }
		// turning by pi gives the same curve
		Ellipse_<T> e5( x, y, a, b, th+PI ); double tol=( sizeof(T)==4?6e-7:4e-14 )*r.cond(); if( tol*std::max(1.,r.maj())<2e-11 ) check( e5==e, "compare", [&]{ return str( "turned by pi: ",e5,' ',e ); } );
	}, [&]{ return str( '(',x,',',y,") ",a,' ',b,' ',th*180/PI,sizeof(T)==4?" float":sizeof(T)==8?"":" long" ); } );
}

/// equality over all pairs of a list of ellipses
struct E5 { double x,y,a,b,th; };
static bool sameCurve( const E5& p, const E5& q )
{
	if( p.x!=q.x || p.y!=q.y || std::max(p.a,p.b)!=std::max(q.a,q.b) || std::min(p.a,p.b)!=std::min(q.a,q.b) ) return false;
	if( p.a==p.b ) return true;
	return std::fabs( std::remainder( p.th-q.th, PI ) )<1e-9;
}
template<class T> void compare( const std::vector<E5>& v )
{
	for( auto& p: v ) for( auto& q: v ) run( [&]{
		Ellipse_<T> a(p.x,p.y,p.a,p.b,p.th), b(q.x,q.y,q.a,q.b,q.th); bool s=sameCurve(p,q);
		check( (a==b)==s && (a!=b)==!s, "compare", [&]{ return str( a,' ',b,s?" same":" different" ); } );
		auto c=a.getCenter(); check( near(c.getX(),p.x,1e-9) && near(c.getY(),p.y,1e-9), "compare", "object modified" );
		outcome( s );
	}, [&]{ return str( p.x,' ',p.y,' ',p.a,' ',p.b,' ',p.th,"  ",q.x,' ',q.y,' ',q.a,' ',q.b,' ',q.th ); } );
}

template<class T>
struct Hist
{
	std::vector<int> h; E5 st;
	static const int NOP=17;
	static void apply( int op, Ellipse_<T>& e, Ref& r )
	{
		auto H=[&]( const Homogr_<T>& m, double a, double b, double tx, double c, double d, double ty ) { e = m*e; r.map(a,b,tx,c,d,ty); };
		double c30=std::cos(PI/6), s30=std::sin(PI/6);
		Homogr_<T> m;
		switch( op )
		{
			case 0: e.translate( 2, -1 ); r.map(1,0,2,0,1,-1); break;
			case 1: e.translate( std::make_pair(-0.5,3.) ); r.map(1,0,-0.5,0,1,3); break;
			case 2: e.moveTo( 1, 4 ); r.cx=1; r.cy=4; break;
			case 3: e.moveTo( Point2d_<T>(0,0) ); r.cx=r.cy=0; break;
			case 4: m.setTranslation(-1,2); H( m, 1,0,-1, 0,1,2 ); break;
			case 5: m.setRotation(PI/6); H( m, c30,-s30,0, s30,c30,0 ); break;
			case 6: m.setRotation(PI/2); H( m, 0,-1,0, 1,0,0 ); break;
			case 7: m.setScale(2.); H( m, 2,0,0, 0,2,0 ); break;
			case 8: m.setScale(2.,0.5); H( m, 2,0,0, 0,0.5,0 ); break;
			case 9: m.setScale(-1.,1.); H( m, -1,0,0, 0,1,0 ); break;
			case 10: { Ellipse_<T> c(e); e=c; break; }
			case 11: { Ellipse_<double> c(e); e=Ellipse_<T>(c); break; }
			case 12: { Ellipse_<T> c(1,2,3,1,0.4); std::swap(c,e); std::swap(c,e); break; }
			case 13: { Ellipse_<T> c(5,2,3,1,0.4); check( e!=c, "compare", "different ellipses are equal" ); break; }
			case 14: m.setScale(0.5,2.).addRotation(-PI/6).addTranslation(1,1); { double a=0.5*c30, b=2*s30, c=-0.5*s30, d=2*c30; H( m, a,b,1, c,d,1 ); } break;
			case 15: { e.getBB(); e.getOBB(); e.angle(); translate( e, 1, 0 ); r.map(1,0,1,0,1,0); break; }
			case 16: { e.getMajMin(); moveTo( e, Point2d_<T>(-2,-3) ); r.cx=-2; r.cy=-3; break; }
		}
	}
	void rec( int depth )
	{
		run( [&]{
			Ellipse_<T> e(st.x,st.y,st.a,st.b,st.th); Ref r=Ref::mk(st.x,st.y,std::max(st.a,st.b),std::min(st.a,st.b),st.th);
			double worst=1;
			for( size_t i=0;i<h.size();i++ ) { apply(h[i],e,r); worst=std::max( worst, r.cond() ); }
			agrees( e, r, 1+worst/r.cond()*2*h.size() );
		}, [&]{ std::string s=str(st.x,' ',st.y,' ',st.a,' ',st.b,' ',st.th," ops"); for( int o: h ) s+=str(' ',o); return s; } );
		if( (int)h.size()<depth ) for( int o=0;o<NOP;o++ ) { h.push_back(o); rec(depth); h.pop_back(); }
	}
};

int main( int argc, char** argv )
{
	init( argc, argv );
	section( "build" );
	for( double x: {-3.,0.,2.,7.5} ) for( double y: {-4.,0.,1.} ) for( double a: {0.5,1.,2.,3.,5.} ) for( double b: {0.5,1.,2.,3.,5.} ) for( int k=-12;k<=24;k++ )
	{
		double th=k*PI/12;
		build<double>( x,y,a,b,th ); build<long double>( x,y,a,b,th ); build<float>( x,y,a,b,th );
	}
	section( "scales" );
	for( double s: {1e-5,1e-4,7e-4,1e5} ) for( double x: {-3.,0.,2.} ) for( double y: {-4.,1.} ) for( double a: {1.,2.,4.} ) for( double b: {1.,3.} ) for( int k=-6;k<=12;k++ ) build<double>( x*s,y*s,a*s,b*s,k*PI/12 );
	for( double s: {0.02,0.1,30.,1000.} ) for( double x: {-3.,0.,2.} ) for( double y: {-4.,1.} ) for( double a: {1.,2.,4.} ) for( double b: {1.,3.} ) for( int k=-6;k<=12;k++ ) { build<double>( x*s,y*s,a*s,b*s,k*PI/12 ); build<long double>( x*s,y*s,a*s,b*s,k*PI/12 ); build<float>( x*s,y*s,a*s,b*s,k*PI/12 ); }
	for( double off: {100.,-1000.,15000.} ) for( double a: {1.,2.,4.} ) for( double b: {1.,3.} ) for( int k=-6;k<=12;k++ ) { build<double>( off+0.3,off*0.7,a,b,k*PI/12 ); build<long double>( off,off*0.7,a,b,k*PI/12 ); }
	section( "resized" );  // seen through an homography with a large or a small factor: the matrix is homogeneous
	for( double f: {1e-6,1e-4,3e-3,1e3,3e4,1e6} ) for( bool tw: {false,true} ) for( double x: {0.,2.} ) for( double y: {-4.,1.} ) for( double a: {1.,2.,4.} ) for( double b: {1.,3.} ) for( int k=-6;k<=12;k++ )
		run( [&]{
			double th=k*PI/12; Ellipse_<double> e( x,y,a,b,th ); Homogr_<double> m; Ref r=Ref::mk( x,y,std::max(a,b),std::min(a,b),th ); double k0=r.cond();
			m.setScale( f, tw?2*f:f ); r.map( f,0,0,0,tw?2*f:f,0 ); Ellipse_<double> e2=m*e;
			agrees( e2, r, 1+4*k0/r.cond() );
			m.inverse(); agrees( m*e2, Ref::mk( x,y,std::max(a,b),std::min(a,b),th ), 10 );
		}, [&]{ return str( "scale ",f,tw?" x2":"",": ",x,' ',y,' ',a,' ',b,' ',k*15 ); } );
	section( "shapes" );   // nearly circles, and flat ones
	std::vector<double> rat; for( int k=1;k<=(thorough()?9:5);k++ ) { double q=std::pow( 10., -k ); rat.push_back( 1-q ); rat.push_back( 1+q ); if( k<=3 ) { rat.push_back( q ); rat.push_back( 2*q ); rat.push_back( 5*q ); } }
	for( double q: rat ) for( double a: {1.,3.,40.} ) for( double x: {0.,2.,-60.} ) for( double y: {0.,1.5} ) for( int k=-24;k<=48;k+=thorough()?1:3 ) { double th=k*PI/24; build<double>( x,y,a,a*q,th ); build<long double>( x,y,a,a*q,th ); build<float>( x,y,a,a*q,th ); }
	section( "angles" );
	for( int k=0;k<=720;k++ ) build<double>( 1.5,-0.5,3,1,k*PI/360 );
	for( double d: {1e-3,1e-5,1e-7,1e-9,-1e-3,-1e-5,-1e-7,-1e-9} ) for( int k=-4;k<=4;k++ ) { build<double>( 1.5,-0.5,3,1,k*PI/4+d ); build<double>( 0,0,2,1.5,k*PI/4+d ); }
	section( "compare" );
	std::vector<E5> v; for( double x: {0.,2.} ) for( double y: {0.,-1.} ) for( double a: {1.,2.} ) for( double b: {1.,3.} ) for( int k=0;k<=12;k+=2 ) v.push_back( {x,y,a,b,k*PI/12} );
	compare<double>( v ); compare<long double>( v );
	section( "histories" );
	for( E5 s: { E5{0,0,2,1,0}, E5{3,-2,3,1,PI/6}, E5{1,1,2,2,0}, E5{-2,0,1,3,PI/2}, E5{2,1,2,1,2*PI/3} } )
	{
		Hist<double> h; h.st=s; h.rec( thorough()?4:3 );
		Hist<float> hf; hf.st=s; hf.rec( 2 ); Hist<long double> hl; hl.st=s; hl.rec( thorough()?3:2 );
	}
	return finish();
}
