// C08: line and segment intersections
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;
template<class T> double tolOf() { return sizeof(T)==4 ? 1e-4 : 1e-9; }

// truth about two supports: parallel or a crossing point with its position on both (exact rationals)
struct X { bool par; Q u,v; };
static X cross4( const IP& a, const IP& b, const IP& c, const IP& d )
{
	ll w=(b.x-a.x)*(d.y-c.y)-(b.y-a.y)*(d.x-c.x);
	if( w==0 ) return {true,0,0};
	return { false, Q::of((c.x-a.x)*(d.y-c.y)-(c.y-a.y)*(d.x-c.x),w), Q::of((c.x-a.x)*(b.y-a.y)-(c.y-a.y)*(b.x-a.x),w) };
}
static bool in01( const Q& q ) { return q>=Q(0) && q<=Q(1); }

template<class A,class B>
void pairTest( const A& s, const B& t, bool expect, double x, double y, double tol, const char* what )
{
	step(2);
	auto r=s.intersects(t); auto q=t.intersects(s);
	check( r()==expect && q()==expect, "intersects", [&]{ return str(what,": ",r(),"/",q()," expected ",expect," for ",s," ; ",t); } );
	check( r.size()==(r()?1u:0u) && q.size()==(q()?1u:0u), "size" );
	if( expect && r() && q() )
	{
		auto p=r.get(), p2=q.get();
		check( std::fabs(p.getX()-x)<=tol && std::fabs(p.getY()-y)<=tol && std::fabs(p2.getX()-x)<=tol && std::fabs(p2.getY()-y)<=tol, "point", [&]{ return str(what,": ",p,"/",p2," expected ",x,",",y); } );
		if( tol<4e-6 ) check( p==p2, "symmetric" );
	}
	if( !expect ) { if(!r()) check( thrown([&]{ r.get(); })==1, "get-throw" ); if(!q()) check( thrown([&]{ q.get(); })==1, "get-throw" ); }
}
static bool isFar( const Emb& e ) { return e.s>1e5 || e.ty>1e6; }       // ends are not decided
template<class T>
void one( const IP& a, const IP& b, const IP& c, const IP& d, const Emb& e )
{
	auto P=[&]( const IP& p ){ return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); };
	auto pa=P(a),pb=P(b),pc=P(c),pd=P(d);
	X x=cross4(a,b,c,d);
	if( e.s<10 && e.ty>1e6 && ( x.par || x.u==Q(0)||x.u==Q(1)||x.v==Q(0)||x.v==Q(1) ) ) return;      // not representable, and below the precision there
	double gx=0,gy=0; if( !x.par ) { gx=a.x+x.u.v()*(b.x-a.x); gy=a.y+x.u.v()*(b.y-a.y); }
	double ex=e.X(gx,gy), ey=e.Y(gx,gy), sc=std::max({1.,std::fabs(ex),std::fabs(ey),std::fabs((double)pa.getX()),std::fabs((double)pa.getY())}), tol=sizeof(T)==4?tolOf<T>()*sc*20 : 1e-9*std::max(1.,e.s)+sc*2e-12;
	Segment_<T> s(pa,pb), s2(pb,pa), t(pc,pd), t2(pd,pc); OSegment_<T> o(pa,pb), o2(pb,pa), u(pc,pd), u2(pd,pc); Line2d_<T> l(pa,pb), m(pc,pd);
	bool ss=!x.par && in01(x.u) && in01(x.v), sl=!x.par && in01(x.u), ll_=!x.par, ls=!x.par && in01(x.v);
	// float: only the cases decided by exact arithmetic on small integers
	pairTest(s,t,ss,ex,ey,tol,"segment/segment"); pairTest(s2,t,ss,ex,ey,tol,"segment/segment"); pairTest(s,t2,ss,ex,ey,tol,"segment/segment");
	pairTest(o,u,ss,ex,ey,tol,"osegment/osegment"); pairTest(o2,u,ss,ex,ey,tol,"osegment/osegment"); pairTest(o,u2,ss,ex,ey,tol,"osegment/osegment"); pairTest(o2,u2,ss,ex,ey,tol,"osegment/osegment");
	pairTest(s,u,ss,ex,ey,tol,"segment/osegment"); pairTest(s,u2,ss,ex,ey,tol,"segment/osegment"); pairTest(o,t,ss,ex,ey,tol,"osegment/segment"); pairTest(o2,t,ss,ex,ey,tol,"osegment/segment");
	// far away, the rounding of the coordinates is above the thresholds
	// (for the far placement: only with the small coordinates)
	const bool wide=e.tx==15000.3 && std::max({a.x,a.y,b.x,b.y,c.x,c.y,d.x,d.y})>3;
	if( !(isFar(e)||wide) || x.par || (x.u!=Q(0)&&x.u!=Q(1)&&x.v!=Q(0)&&x.v!=Q(1)) ) {
	pairTest(s,m,sl,ex,ey,tol,"segment/line"); pairTest(o,m,sl,ex,ey,tol,"osegment/line"); pairTest(o2,m,sl,ex,ey,tol,"osegment/line"); pairTest(l,t,ls,ex,ey,tol,"line/segment"); pairTest(l,u2,ls,ex,ey,tol,"line/osegment");
	pairTest(l,m,ll_,ex,ey,tol,"line/line");
	if( !x.par && e.tx!=15000.3 ) { // the same line given by its homogeneous coordinates
		double A=(double)pc.getY()-pd.getY(), B=(double)pd.getX()-pc.getX(), C=-A*pc.getX()-B*pc.getY(); Line2d_<T> h(-3*A,-3*B,-3*C); pairTest(s,h,sl,ex,ey,tol,"segment/homogeneous line"); } }
	outcome( x.par ? (cross(a,b,c)==0?1:2) : mix(hd(x.u.v()),hd(x.v.v())) );
}
// several types in one call
template<class T,class U>
void mixed( const IP& a, const IP& b, const IP& c, const IP& d )
{
	X x=cross4(a,b,c,d); double gx=0,gy=0; if( !x.par ) { gx=a.x+x.u.v()*(b.x-a.x); gy=a.y+x.u.v()*(b.y-a.y); }
	bool ss=!x.par && in01(x.u) && in01(x.v), sl=!x.par && in01(x.u);
	Segment_<T> s(a.x,a.y,b.x,b.y); OSegment_<T> o(a.x,a.y,b.x,b.y); Segment_<U> t(c.x,c.y,d.x,d.y); OSegment_<U> u(c.x,c.y,d.x,d.y); Line2d_<U> m(c.x,c.y,d.x,d.y);
	auto ask=[&]( auto& p, auto& q, bool e, const char* n ) { step(2); auto r=p.intersects(q); auto w=q.intersects(p); check( r()==e && w()==e, "mixed", [&]{ return str(n,": ",r(),w()," expected ",e); } ); if( e&&r()&&w() ) check( std::fabs(r.get().getX()-gx)<1e-4&&std::fabs(r.get().getY()-gy)<1e-4&&std::fabs(w.get().getX()-gx)<1e-4&&std::fabs(w.get().getY()-gy)<1e-4, "mixed-point" ); };
	const bool edge = !x.par && (x.u==Q(0)||x.u==Q(1)) && sizeof(U)==4;   // a float line through an end point: below the precision of the type
	ask(s,t,ss,"s/s"); ask(o,u,ss,"o/o"); ask(s,u,ss,"s/o"); ask(o,t,ss,"o/s"); if( !edge ) { ask(s,m,sl,"s/l"); ask(o,m,sl,"o/l"); }
	outcome( ss*2+sl );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=skewed(tilted(moderate())); int n=thorough()?4:3;
	const Emb far{ 0.7, 15000.3, -22000.6, false, false, "far" };
	std::vector<Emb> em=E; em.push_back(far); em.push_back( embeddings()[2] ); em.push_back( { 0.7,500000.3,4500000.6,false,false,"utm" } );   // the huge one
	auto g=grid(0,0,n,n);
	section("pairs");
	for( auto& e: em ) for( auto& a: g ) for( auto& b: g ) if( a<b ) for( auto& c: g ) for( auto& d: g ) if( c<d )
		run( [&]{ one<double>(a,b,c,d,e); }, [&]{ return str("double ",a,b," / ",c,d," emb=",e.name); } );
	section("types");
	auto h=grid(0,0,2,2);
	for( auto& a: h ) for( auto& b: h ) if( a<b ) for( auto& c: h ) for( auto& d: h ) if( c<d )
	{
		for( int i: {0,1,2} ) run( [&]{ one<long double>(a,b,c,d,E[i]); }, [&]{ return str("long double ",a,b," / ",c,d," emb=",E[i].name); } );
		run( [&]{ mixed<double,long double>(a,b,c,d); mixed<long double,double>(a,b,c,d); mixed<float,double>(a,b,c,d); mixed<double,float>(a,b,c,d); mixed<float,float>(a,b,c,d); }, [&]{ return str("mixed ",a,b," / ",c,d); } );
	}
	return finish();
}
