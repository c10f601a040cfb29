// C20: circles from points, tangent segments, helpers joining two circles, circles of a rectangle, setters.
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
using namespace mc; using geo::Poly; using namespace h2d;

template<class T> Point2d_<T> P( const geo::Emb& e, IP q ) { return Point2d_<T>( (T)e.X(q.x,q.y), (T)e.Y(q.x,q.y) ); }
template<class A,class B> double D( const A& a, const B& b ) { return std::hypot( (double)a.getX()-(double)b.getX(), (double)a.getY()-(double)b.getY() ); }
template<class T> double eps( const geo::Emb& e ) { double m=std::fabs(e.tx)+std::fabs(e.ty)+10*e.s; return sizeof(T)==4 ? 2e-6*m : 1e-12*m*20; }
struct Opt { double tolK; };

template<class T,class T1,class T2>
void two( const geo::Emb& e, IP a, IP b )
{
	run( [&]{
		auto pa=P<T1>(e,a); auto pb=P<T2>(e,b);
		double tol=std::max( eps<T>(e), std::max(eps<T1>(e),eps<T2>(e)) );
		auto test=[&]( const Circle_<T>& c, const char* w )
		{
			double cx=((double)pa.getX()+pb.getX())/2, cy=((double)pa.getY()+pb.getY())/2;
			check( near(c.center().getX(),cx,tol) && near(c.center().getY(),cy,tol), "center", [&]{ return str(w,' ',c); } );
			check( near(c.radius(),D(pa,pb)/2,tol), "radius", [&]{ return str(w,' ',c); } );
		};
		if( a==b )
		{
			check( thrown([&]{ Circle_<T> c(pa,pa); })==1, "same", "two identical points accepted" );
			Circle_<T> c( 7, 8, 3 ); check( thrown([&]{ c.set(pa,pa); })==1, "same", "two identical points accepted" );
			check( c.center().getX()==7 && c.center().getY()==8 && c.radius()==3, "same", "object modified by a refused call" );
			return;
		}
		test( Circle_<T>(pa,pb), "ctor" );
		Circle_<T> c( 7, 8, 3 ); c.set( pa, pb ); test( c, "set" );
		outcome( hd(c.radius()) );
	}, [&]{ return str( a,b,' ',e.name ); } );
}
template<class T,class T1,class T2,class T3>
void three( const geo::Emb& e, IP a, IP b, IP d )
{
	run( [&]{
		auto pa=P<T1>(e,a); auto pb=P<T2>(e,b); auto pd=P<T3>(e,d);
		double tol=std::max( eps<T>(e), std::max(eps<T1>(e),std::max(eps<T2>(e),eps<T3>(e))) )*20;
		Circle_<T> c( 7, 8, 3 );
		if constexpr( std::is_same_v<T1,T2> && std::is_same_v<T1,T3> )
			check( areCollinear(pa,pb,pd)==(cross(a,b,d)==0), "areCollinear", [&]{ return str( "areCollinear: ",areCollinear(pa,pb,pd) ); } );
		if( cross(a,b,d)==0 )
		{
			check( thrown([&]{ c.set(pa,pb,pd); })==1, "collinear", "collinear points accepted" );
			check( thrown([&]{ Circle_<T> z(pa,pb,pd); })==1, "collinear", "collinear points accepted" );
			check( c.center().getX()==7 && c.center().getY()==8 && c.radius()==3, "collinear", "object modified by a refused call" );
			return;
		}
		auto test=[&]( const Circle_<T>& z, const char* w ) { check( near(D(z.center(),pa),z.radius(),tol) && near(D(z.center(),pb),z.radius(),tol) && near(D(z.center(),pd),z.radius(),tol),
			"through", [&]{ return str(w,' ',z,' ',D(z.center(),pa)-z.radius(),' ',D(z.center(),pb)-z.radius(),' ',D(z.center(),pd)-z.radius()); } ); };
		c.set( pa, pb, pd ); test( c, "set" );
		test( Circle_<T>(pa,pb,pd), "ctor" );
		outcome( mix( hd(c.radius()), hd(c.center().getX()) ) );
	}, [&]{ return str( a,b,d,' ',e.name ); } );
}
template<class T1,class T2>
void tans( const geo::Emb& e, IP a, ll r1, IP b, ll r2 )
{
	run( [&]{
		Circle_<T1> c1( P<T1>(e,a), (T1)(r1*e.s) ); Circle_<T2> c2( P<T2>(e,b), (T2)(r2*e.s) );
		double tol=std::max(eps<T1>(e),eps<T2>(e))*200;
		ll h2=d2(a,b), dr=r1-r2;
		if( a==b && r1==r2 ) { check( thrown([&]{ getTanSegs(c1,c2); })==1, "identical", "identical circles accepted" ); return; }
		if( h2<=dr*dr )            // one inside the other, or touching from inside: no tangent segment
		{
			if( h2<dr*dr || e.exact ) check( thrown([&]{ getTanSegs(c1,c2); })==1, "nested", "no exception though there is no tangent segment" );
			return;
		}
		auto ps=getTanSegs( c1, c2 );
		double side=0;
		for( auto* s: { &ps.first, &ps.second } )
		{
			auto pts=s->getPts(); auto p=pts.first, q=pts.second;
			if( std::fabs(D(p,c1.center())-c1.radius())+std::fabs(D(q,c2.center())-c2.radius()) > std::fabs(D(q,c1.center())-c1.radius())+std::fabs(D(p,c2.center())-c2.radius()) ) std::swap(p,q);
			check( near(D(p,c1.center()),c1.radius(),tol) && near(D(q,c2.center()),c2.radius(),tol), "ends", [&]{ return str( "segment ",*s," does not end on the circles" ); } );
			double ux=(double)q.getX()-p.getX(), uy=(double)q.getY()-p.getY(), n=std::hypot(ux,uy);
			check( n>0 && std::isfinite(n), "length", [&]{ return str( "segment ",*s ); } );
			double v1=( ((double)p.getX()-c1.center().getX())*ux + ((double)p.getY()-c1.center().getY())*uy )/n, v2=( ((double)q.getX()-c2.center().getX())*ux + ((double)q.getY()-c2.center().getY())*uy )/n;
			check( near(v1,0,tol) && near(v2,0,tol), "perpendicular", [&]{ return str( "segment ",*s,": ",v1,' ',v2 ); } );
			check( near( n, e.s*std::sqrt((double)(h2-dr*dr)), tol ), "length", [&]{ return str( "segment ",*s ); } );
			double cr=( (double)c2.center().getX()-c1.center().getX() )*( (double)p.getY()-c1.center().getY() ) - ( (double)c2.center().getY()-c1.center().getY() )*( (double)p.getX()-c1.center().getX() );
			if( side==0 ) side=cr; else check( side*cr<0, "sides", "both segments on the same side" );
		}
		outcome( hd(D(ps.first.getPts().first,ps.second.getPts().first)/e.s) );
	}, [&]{ return str( a,' ',r1,' ',b,' ',r2,' ',e.name ); } );
}
template<class T1,class T2>
void joins( const geo::Emb& e, IP a, IP b )
{
	run( [&]{
		Circle_<T1> c1( P<T1>(e,a), (T1)2 ); Circle_<T2> c2( P<T2>(e,b), (T2)3 ); Ellipse_<T2> el( P<T2>(e,b), 3., 1., 0.3 );
		check( center(c1)==c1.center() && radius(c1)==c1.radius() && c1.getCenter()==c1.center(), "access", "free access functions" );
		if( a==b ) { check( thrown([&]{ getSegment(c1,c2); })==1, "same", "segment between identical centers" ); check( thrown([&]{ getLine(c1,c2); })==1, "same", "line between identical centers" ); return; }
		auto s=getSegment(c1,c2); auto pp=s.getPts();
		double tol=std::max(eps<T1>(e),eps<T2>(e));
		check( (D(pp.first,c1.center())<=tol && D(pp.second,c2.center())<=tol) || (D(pp.second,c1.center())<=tol && D(pp.first,c2.center())<=tol), "segment", [&]{ return str( s ); } );
		auto s2=getSegment(c1,el); auto p2=s2.getPts();
		check( ( D(p2.first,pp.first)<=2000*tol && D(p2.second,pp.second)<=2000*tol ) || ( D(p2.first,pp.second)<=2000*tol && D(p2.second,pp.first)<=2000*tol ), "segment", [&]{ return str( "with an ellipse ",s2," instead of ",s ); } );
		auto l=getLine(c1,c2);
		double m = sizeof(T1)==4||sizeof(T2)==4 ? 1e-6 : 1e-12; m*=20*(1+std::fabs(e.tx)+std::fabs(e.ty)+10*e.s)/std::min(1.,e.s*std::sqrt((double)d2(a,b)));
		check( l.distTo(c1.center())<=m*e.s+tol && l.distTo(c2.center())<=m*e.s+tol, "line", [&]{ return str( l,' ',l.distTo(c1.center()),' ',l.distTo(c2.center()) ); } );
		auto l2=s.getLine(); check( l2.distTo(c1.center())<=m*e.s+tol && l2.distTo(c2.center())<=m*e.s+tol, "line", "line of the segment" );
		std::vector<Circle_<T1>> vc{ c1, Circle_<T1>(P<T1>(e,b),(T1)3) }; auto ctr=getCenters(vc);
		check( ctr.size()==2 && ctr[0]==vc[0].center() && ctr[1]==vc[1].center(), "centers", "getCenters" );
	}, [&]{ return str( a,b,' ',e.name ); } );
}
template<class T>
void rect( const geo::Emb& e, IP a, IP b )
{
	run( [&]{
		if( a.x==b.x || a.y==b.y ) return;
		FRect_<T> r( P<T>(e,a), P<T>(e,b) );
		double tol=eps<T>(e)*10, w=e.s*std::fabs((double)(a.x-b.x)), h=e.s*std::fabs((double)(a.y-b.y));
		auto c=r.getBoundingCircle(), i=r.getInscribedCircle(); auto c2=getBoundingCircle(r), i2=getInscribedCircle(r);
		double mx=e.X(a.x,a.y)/2+e.X(b.x,b.y)/2, my=e.Y(a.x,a.y)/2+e.Y(b.x,b.y)/2;
		for( auto* z: {&c,&i,&c2,&i2} ) check( near(z->center().getX(),mx,tol) && near(z->center().getY(),my,tol), "rect center", [&]{ return str(*z); } );
		for( auto& q: r.get4Pts() ) { check( near(D(q,c.center()),c.radius(),tol), "bounding", [&]{ return str(c); } ); check( near(D(q,c2.center()),c2.radius(),tol), "bounding", [&]{ return str(c2); } ); }
		check( near(i.radius(),std::min(w,h)/2,tol) && near(i2.radius(),std::min(w,h)/2,tol), "inscribed", [&]{ return str(i); } );
	}, [&]{ return str( "rect ",a,b,' ',e.name ); } );
}

/// setters and access functions: every sequence up to a depth against a plain (x,y,r) model
template<class T>
void setters( int depth )
{
	std::vector<int> h;
	struct M { double x,y,r; };
	std::function<void()> rec=[&]{
		run( [&]{
			Circle_<T> c; M m{0,0,1};
			for( int op: h )
			{
				int v=op/8+1;
				switch( op%8 )
				{
					case 0: c.set( v*1. ); m.r=v; break;
					case 1: c.set( Point2d_<float>(v,-v) ); m.x=v; m.y=-v; break;
					case 2: c.set( Point2d_<double>(2*v,v), 3*v ); m={2.*v,1.*v,3.*v}; break;
					case 3: c.set( 1*v, 2*v, 5*v ); m={1.*v,2.*v,5.*v}; break;
					case 4: radius(c)=(T)(v+7); m.r=v+7; break;
					case 5: center(c)=Point2d_<T>(9,v); m.x=9; m.y=v; break;
					case 6: c.translate( v, 0.5*v ); m.x+=v; m.y+=0.5*v; break;
					case 7: { Circle_<float> f( Point2d_<float>(v,0), v ); Circle_<T> z(f); c=z; m={1.*v,0,1.*v}; break; }
				}
				step();
				const auto& k=c;
				check( k.center().getX()==m.x && k.center().getY()==m.y && k.radius()==m.r && radius(k)==m.r && center(k)==k.getCenter() && (c==Circle_<T>(m.x,m.y,m.r)) && !(c!=Circle_<T>(m.x,m.y,m.r)),
					"setters", [&]{ return str( c,", expected ",m.x,',',m.y,',',m.r ); } );
				check( near(area(c),M_PI*m.r*m.r,1e-4) && near(length(c),2*M_PI*m.r,1e-4), "setters", "area or length" );
				outcome( mix(hd(m.x),mix(hd(m.y),hd(m.r))) );
			}
		}, [&]{ std::string s="ops"; for( int o: h ) s+=str(' ',o); return s; } );
		if( (int)h.size()<depth ) for( int o=0;o<16;o++ ) { h.push_back(o); rec(); h.pop_back(); }
	};
	rec();
}

int main( int argc, char** argv )
{
	init( argc, argv );
	std::vector<geo::Emb> all=geo::rounded(); all.push_back( {0.7,15000.3,-22000.6,false,false,"far"} );
	auto g44=geo::grid(0,0,3,3), g55=geo::grid(0,0,4,4);
	for( auto& e: all )
	{
		section( str("two-",e.name) ); for( auto a: g55 ) for( auto b: g55 ) { two<double,double,double>(e,a,b); two<double,float,double>(e,a,b); two<long double,double,long double>(e,a,b); two<float,float,float>(e,a,b); two<float,double,double>(e,a,b); }
		section( str("three-",e.name) ); for( auto a: g44 ) for( auto b: g44 ) for( auto c: g44 ) { three<double,double,double,double>(e,a,b,c); three<long double,double,long double,double>(e,a,b,c); if( e.exact ) { three<double,double,float,double>(e,a,b,c); three<float,float,float,float>(e,a,b,c); } }
	}
	// nearly right angles, nearly isosceles triangles, nearly horizontal segments
	for( auto& e: geo::skewed({}) )
	{
		section( str("two-",e.name) ); for( auto a: g55 ) for( auto b: g55 ) { two<double,double,double>(e,a,b); two<double,float,double>(e,a,b); two<long double,double,long double>(e,a,b); two<float,double,double>(e,a,b); }
		section( str("three-",e.name) ); for( auto a: g44 ) for( auto b: g44 ) for( auto c: g44 ) { three<double,double,double,double>(e,a,b,c); three<long double,double,long double,double>(e,a,b,c); }
	}
	for( auto& e: all )
	{
		section( str("tan-",e.name) );
		ll M=thorough()?9:6;
		for( ll dx=-M;dx<=M;dx++ ) for( ll dy=-M;dy<=M;dy++ ) for( ll r1=1;r1<=4;r1++ ) for( ll r2=1;r2<=4;r2++ ) for( IP a: { IP{0,0}, IP{2,1} } )
		{
			IP b{a.x+dx,a.y+dy};
			tans<double,double>( e, a, r1, b, r2 );
			if( std::string(e.name)!="far" ) { tans<long double,double>( e, a, r1, b, r2 ); tans<double,long double>( e, a, r1, b, r2 ); }
			if( std::string(e.name)=="unit" ) { tans<float,float>( e, a, r1, b, r2 ); tans<float,double>( e, a, r1, b, r2 ); }
		}
		section( str("joins-",e.name) ); for( auto a: g55 ) for( auto b: g55 ) { joins<double,double>(e,a,b); joins<long double,double>(e,a,b); if( e.exact ) joins<double,float>(e,a,b), joins<float,float>(e,a,b); }
		section( str("rects-",e.name) ); for( auto a: g55 ) for( auto b: g55 ) { rect<double>(e,a,b); rect<float>(e,a,b); rect<long double>(e,a,b); }
	}
	for( auto& e: geo::tilted({}) )
	{
		section( str("tan-",e.name) );
		for( ll dx=-6;dx<=6;dx++ ) for( ll dy=-6;dy<=6;dy++ ) for( ll r1=1;r1<=4;r1++ ) for( ll r2=1;r2<=4;r2++ ) { tans<double,double>( e, {2,1}, r1, {2+dx,1+dy}, r2 ); tans<long double,double>( e, {0,0}, r1, {dx,dy}, r2 ); }
		section( str("joins-",e.name) ); for( auto a: g55 ) for( auto b: g55 ) { joins<double,double>(e,a,b); joins<long double,double>(e,a,b); }
	}
	section( "setters" ); setters<double>( thorough()?5:4 ); setters<float>(3); setters<long double>(3);
	return finish();
}
