// C06: line queries
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;
template<class T> double tolOf() { return sizeof(T)==4 ? 1e-5 : 1e-9; }
struct V { LD x,y; };
// line through p with direction d (exact description kept beside the real one)
struct Ref { LD px,py,dx,dy; 
	LD n() const { return std::hypot(dx,dy); }
	LD sd( LD x, LD y ) const { LD a=-dy,b=dx; if( a<0||(a==0&&b<0) ) { a=-a;b=-b; } return (a*(x-px)+b*(y-py))/n(); }  // signed, positive towards the positive side (a>0, or b>0 for horizontals)
	V proj( LD x, LD y ) const { LD t=((x-px)*dx+(y-py)*dy)/(dx*dx+dy*dy); return {px+t*dx,py+t*dy}; } };

template<class T>
void ask( const IP& a, const IP& d, const IP& q, const Emb& e, double dist, int how )
{
	double ax=(T)e.X(a.x,a.y), ay=(T)e.Y(a.x,a.y), bx=(T)e.X(a.x+d.x,a.y+d.y), by=(T)e.Y(a.x+d.x,a.y+d.y), qx=(T)e.X(q.x,q.y), qy=(T)e.Y(q.x,q.y);
	Ref R{ax,ay,(LD)bx-ax,(LD)by-ay};
	bool hor = by==ay, ver = bx==ax;
	double sc=std::max({1.,std::fabs(ax),std::fabs(ay),std::fabs(qx),std::fabs(qy),dist}), t=tolOf<T>()*sc*20;
	Line2d_<T> l;
	if( how==0 ) l=Point2d_<T>((T)ax,(T)ay)*Point2d_<T>((T)bx,(T)by);
	else if( how==1 ) l=Line2d_<T>( Point2d_<T>((T)bx,(T)by), Point2d_<T>((T)ax,(T)ay) );
	else { double A=by-ay,B=ax-bx; l=Line2d_<T>( -2.5*A, -2.5*B, 2.5*(A*ax+B*ay) ); }
	Point2d_<T> pt((T)qx,(T)qy), on((T)ax,(T)ay);
	step(20);
	LD s=R.sd(qx,qy); bool isOn=cross(a,{a.x+d.x,a.y+d.y},q)==0;
	// distance, side
	check( std::fabs(l.distTo(pt)-std::fabs(s))<=t && std::fabs(pt.distTo(l)-std::fabs(s))<=t, "dist", [&]{ return str("distance ",l.distTo(pt)," expected ",(double)std::fabs(s)); } );
	if( sizeof(T)>4 ) check( side(pt,l)==(isOn?0:s>0?1:-1), "side", [&]{ return str("side=",side(pt,l)," expected ",isOn?0:s>0?1:-1); } );
	// coordinates
	int kx=thrown([&]{ l.getCoord(GivenCoord::X,qx); l.getPoint(GivenCoord::X,qx); }), ky=thrown([&]{ l.getCoord(GivenCoord::Y,qy); l.getPoint(GivenCoord::Y,qy); });
	check( kx==(ver?1:0) && ky==(hor?1:0), "coord-throw", [&]{ return str("x given: ",kx," y given: ",ky); } );
	int kox=thrown([&]{ l.getOrthogLine(GivenCoord::X,qx); l.getPoints(GivenCoord::X,qx,2.); }), koy=thrown([&]{ l.getOrthogLine(GivenCoord::Y,qy); l.getPoints(GivenCoord::Y,qy,2.); });
	check( kox==(ver?1:0) && koy==(hor?1:0), "coord-throw2" );
	auto isPt=[&]( const auto& p, LD x, LD y, LD k=1 ){ return std::fabs(p.getX()-x)<=t*k && std::fabs(p.getY()-y)<=t*k; };
	LD slope=ver||hor?1:std::max( std::fabs(R.dy/R.dx), std::fabs(R.dx/R.dy) );
	auto pair=[&]( const auto& pp, LD x, LD y, const char* tag ) {
		LD ux=R.dx/R.n()*dist, uy=R.dy/R.n()*dist; if( ux<0||(ux==0&&uy<0) ) { ux=-ux;uy=-uy; }
		check( isPt(pp.first,x-ux,y-uy,slope) && isPt(pp.second,x+ux,y+uy,slope), tag, [&]{ return str("points ",pp.first," ",pp.second," expected ",(double)(x-ux),",",(double)(y-uy)," ",(double)(x+ux),",",(double)(y+uy)); } ); };
	auto orth=[&]( const auto& o, LD x, LD y, const char* tag ) {
		check( std::fabs(o.getAngle(l)-M_PI/2)<1e-4 && o.distTo(Point2d_<double>(x,y))<=t*slope && std::fabs( o.distTo(Point2d_<double>(x+R.dx,y+R.dy))-R.n())<=t*slope, tag, [&]{ return str("orthogonal line ",o); } ); };
	if( !ver ) { LD y=R.py+(qx-R.px)*R.dy/R.dx; check( std::fabs(l.getCoord(GivenCoord::X,qx)-y)<=t*slope, "getCoord" ); check( isPt(l.getPoint(GivenCoord::X,qx),qx,y,slope), "getPoint" ); if(dist>0) pair(l.getPoints(GivenCoord::X,qx,dist),qx,y,"getPoints-x"); orth(l.getOrthogLine(GivenCoord::X,qx),qx,y,"orthog-x"); }
	if( !hor ) { LD x=R.px+(qy-R.py)*R.dx/R.dy; check( std::fabs(l.getCoord(GivenCoord::Y,qy)-x)<=t*slope, "getCoord" ); check( isPt(l.getPoint(GivenCoord::Y,qy),x,qy,slope), "getPoint" ); if(dist>0) pair(l.getPoints(GivenCoord::Y,qy,dist),x,qy,"getPoints-y"); orth(l.getOrthogLine(GivenCoord::Y,qy),x,qy,"orthog-y"); }
	orth( l.getOrthogLine(pt), qx,qy, "orthog-pt" );
	if( sizeof(T)>4 )
	{
		int k=thrown([&]{ l.getPoints(pt,dist); }), k2=thrown([&]{ l.getRotatedLine(pt,0.5); });
		check( k==(isOn?0:1) && k2==(isOn?0:1), "point-on-line", [&]{ return str("getPoints: ",k," getRotatedLine: ",k2); } );
		if( isOn )
		{
			if(dist>0) pair( l.getPoints(pt,dist), qx,qy, "getPoints-pt" );
			for( double th: {0.,0.5,-0.5,M_PI/4,M_PI/2,-M_PI/2,2.5,M_PI,4.,-3.} )
			{
				auto r=l.getRotatedLine(pt,th); LD c=std::cos((LD)th), sn=std::sin((LD)th);
				check( r.distTo(pt)<=t && r.distTo(Point2d_<double>(qx+R.dx*c-R.dy*sn,qy+R.dx*sn+R.dy*c))<=t*10, "rotated", [&]{ return str("rotation ",th," gives ",r); } );
			}
		}
		// orthogonal segment
		int ko=thrown([&]{ l.getOrthogSegment(pt); });
		check( ko==(isOn?1:0), "orthogSegment-throw" );
		if( !ko ) { auto g=l.getOrthogSegment(pt); auto p=g.getPts(); V v=R.proj(qx,qy); check( isPt(p.first,v.x,v.y) && isPt(p.second,qx,qy) && std::fabs(g.length()-std::fabs(s))<=t, "orthogSegment", [&]{ return str("got ",g); } ); }
		// parallel lines
		auto pl=l.getParallelLine(pt);
		check( pl.distTo(pt)<=t && pl.isParallelTo(l) && l.isParallelTo(pl), "parallelLine" );
		double pd=getParallelDistance(l,pl), pd2=getParallelDistance(pl,l);
		check( std::fabs(pd-std::fabs(s))<=t && std::fabs(pd2-std::fabs(s))<=t, "parallelDistance", [&]{ return str("got ",pd,",",pd2," expected ",(double)std::fabs(s)); } );
		check( (pl==l)==isOn, "parallel-equal" );
		// the same parallel line, built from other points
		Line2d_<T> pl2( pt, Point2d_<T>((T)(qx+7*R.dx),(T)(qy+7*R.dy)) ), pl3( pt, Point2d_<T>((T)(qx-3*R.dx),(T)(qy-3*R.dy)) );
		for( auto* x: {&pl2,&pl3} ) { double z=getParallelDistance(l,*x), z2=getParallelDistance(*x,l); check( std::fabs(z-std::fabs(s))<=t && std::fabs(z2-std::fabs(s))<=t, "parallelDistance2", [&]{ return str("got ",z,",",z2," expected ",(double)std::fabs(s)); } ); check( x->isParallelTo(l), "parallel2" ); }
		auto ol=l.getOrthogLine(pt); check( !ol.isParallelTo(l) && thrown([&]{ getParallelDistance(l,ol); })==1, "parallelDistance-throw" );
	}
	auto pp=l.getParallelLines(dist), pf=getParallelLines(l,dist);
	LD nx=-R.dy/R.n()*dist, ny=R.dx/R.n()*dist; if( nx<0||(nx==0&&ny<0) ) { nx=-nx;ny=-ny; }
	check( std::fabs(pp.first.distTo(l*l.getOrthogLine(pt))-dist)<=t && pp.first.isParallelTo(l) && pp.second.isParallelTo(l), "parallelLines" );
	double f1=pp.first.distTo(Point2d_<double>(ax+nx,ay+ny)), f2=pp.first.distTo(Point2d_<double>(ax-nx,ay-ny)), s1=pp.second.distTo(Point2d_<double>(ax+nx,ay+ny)), s2=pp.second.distTo(Point2d_<double>(ax-nx,ay-ny));
	check( (std::min(f1,f2)<=t && std::min(s1,s2)<=t) && ( dist==0 || ((f1<f2)!=(s1<s2)) ), "parallelLines-sides", [&]{ return str("distances ",f1,",",f2,",",s1,",",s2); } );
	check( pf.first==pp.first && pf.second==pp.second, "parallelLines-free" );
	// length, area
	check( thrown([&]{ l.length(); })==1 && l.area()==0 && l.size()==0 && !l.isInf() && l.type()==Type::Line2d, "attrs" );
	auto keep=l; l.translate(3,4); check( l==keep, "translate" );
	outcome( mix(hd((double)s),mix(hd(l.get()[0]),hd(dist))) );
}
template<class T>
void ang( const IP& a, const IP& d1, const IP& b, const IP& d2, const Emb& e )
{
	auto P=[&]( const IP& p ){ return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); };
	IP a2{a.x+d1.x,a.y+d1.y}, b2{b.x+d2.x,b.y+d2.y};
	Line2d_<T> l(P(a),P(a2)), m(P(b),P(b2));
	Segment_<T> ls(P(a),P(a2)), ms(P(b),P(b2)); OSegment_<T> lo(P(a),P(a2)), mo(P(b),P(b2));
	ll w=d1.x*d2.y-d1.y*d2.x, dt=d1.x*d2.x+d1.y*d2.y;
	double ex=std::atan2( std::fabs((double)w), std::fabs((double)dt) ), tl=sizeof(T)==4?3e-3:1e-6;
	step(10);
	for( double v: { (double)l.getAngle(m), (double)m.getAngle(l), (double)getAngle(l,m), (double)l.getAngle(ms), (double)ls.getAngle(m), (double)ls.getAngle(ms), (double)lo.getAngle(ms), (double)ls.getAngle(mo), (double)l.getAngle(mo), (double)lo.getAngle(m), (double)getAngle(ls,mo), (double)getAngle(l,ms) } )
		check( std::fabs(v-ex)<tl, "angle", [&]{ return str("angle ",v," expected ",ex); } );
	double o=lo.getAngle(mo), eo=std::atan2((double)w,(double)dt)*(e.swap?-1:1);
	if( w==0 && dt<0 ) o=std::fabs(o), eo=M_PI;
	check( std::fabs(o-eo)<tl && std::fabs(std::fabs(mo.getAngle(lo))-std::fabs(eo))<tl, "oriented-angle", [&]{ return str("angle ",o," expected ",eo); } );
	check( l.isParallelTo(m)==(w==0) && m.isParallelTo(l)==(w==0) && l.isParallelTo(ms)==(w==0) && ls.isParallelTo(m)==(w==0) && ls.isParallelTo(ms)==(w==0) && lo.isParallelTo(mo)==(w==0) && lo.isParallelTo(m)==(w==0), "parallel" );
	outcome( mix(hd(o),hd(ex)) );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=withFar(tilted(moderate())); int n=thorough()?5:3, dd=thorough()?5:3;
	std::vector<IP> dirs; for( auto& d: grid(-dd,-dd,dd,dd) ) if( d.x||d.y ) dirs.push_back(d);
	section("queries");
	for( auto& e: E ) for( auto& a: {IP{0,0},IP{1,2}} ) for( auto& d: dirs ) for( auto& q: grid(-1,-1,n,n) ) for( double dist: {0.5,3.25} ) for( int how=0;how<3;how++ )
		run( [&]{ ask<double>(a,d,q,e,dist,how); }, [&]{ return str("double a=",a," dir=",d," q=",q," emb=",e.name," dist=",dist," built ",how); } );
	section("queries-types");
	for( int ie: {0,1} ) for( auto& d: dirs ) for( auto& q: grid(-1,-1,2,2) ) for( int how=0;how<2;how++ )
	{
		run( [&]{ ask<float>({1,2},d,q,E[ie],2,how); }, [&]{ return str("float a=(1,2) dir=",d," q=",q," emb=",E[ie].name," built ",how); } );
		run( [&]{ ask<long double>({1,2},d,q,E[ie],2,how); }, [&]{ return str("long double a=(1,2) dir=",d," q=",q," emb=",E[ie].name," built ",how); } );
	}
	section("angles");
	for( auto& e: E ) for( auto& d1: dirs ) for( auto& d2: dirs ) for( auto& b: {IP{0,0},IP{2,1},IP{-1,3}} )
		run( [&]{ ang<double>({0,0},d1,b,d2,e); }, [&]{ return str("double dirs ",d1,d2," b=",b," emb=",e.name); } );
	section("angles-types");
	for( auto& d1: dirs ) for( auto& d2: dirs ) run( [&]{ ang<float>({0,0},d1,{1,2},d2,E[1]); ang<long double>({0,0},d1,{1,2},d2,E[3]); }, [&]{ return str("types dirs ",d1,d2); } );
	section("rotated-parallel");      // directions computed with sin and cos, and turned lines: vertical and horizontal ones only up to rounding
	for( int k=-24;k<=24;k++ ) for( auto& a: grid(-1,-1,1,1) ) for( double d: {0.1,1.,7.3} ) for( int i=0;i<4;i++ ) for( int j=0;j<4;j++ )
		run( [&]{
			double th=k*M_PI/24, c=std::cos(th), sn=std::sin(th), c2=-std::cos(th-M_PI), s2=-std::sin(th-M_PI), px=a.x*12.7, py=a.y*41.1;
			double r[]={1,-1,13.7,-250.1};
			Line2d l( Point2d(px,py), Point2d(px+r[i]*c,py+r[i]*sn) ), m( Point2d(px-d*sn,py+d*c), Point2d(px-d*sn+r[j]*c2,py+d*c+r[j]*s2) );
			auto cmp=[&]( const Line2d& u, const Line2d& v, const char* w ) { double x=-1; int t=thrown([&]{ x=getParallelDistance(u,v); }); check( t==0 && std::fabs(x-d)<1e-6*200, "rotated-parallel", [&]{ return str(w,": distance ",x," expected ",d,t?" (exception)":""); } ); check( u.isParallelTo(v), "rotated-isparallel" ); };
			step(12);
			cmp(l,m,"points"); cmp(m,l,"points");
			Homogr H; H.addTranslation(-px,-py).addRotation(-th).addTranslation(px,py); Line2d hl=H*l, hm=H*m; cmp(hl,hm,"turned"); cmp(hm,hl,"turned");
			auto pp=l.getParallelLines(d); cmp(l,pp.first,"parallel line"); cmp(l,pp.second,"parallel line");
			auto pl=l.getParallelLine( Point2d(px-d*sn,py+d*c) ); cmp(l,pl,"parallel at point");
			auto rl=l.getRotatedLine( Point2d(px,py), M_PI/2 ), rm=m.getRotatedLine( m.getPoint( std::fabs(c)>0.5?GivenCoord::X:GivenCoord::Y, std::fabs(c)>0.5?px-d*sn:py+d*c ), M_PI/2 ); check( std::fabs(rl.getAngle(l)-M_PI/2)<1e-4 && std::fabs(rm.getAngle(m)-M_PI/2)<1e-4, "rotated-angle" );
			auto o1=l.getOrthogLine(Point2d(px,py)), o2=l.getOrthogLine(Point2d(px+d*c,py+d*sn)); cmp(o1,o2,"orthogonal lines");
			outcome( mix(hd(l.get()[0]),hd(d)) );
		}, [&]{ return str("angle ",k,"*PI/24 a=",a," d=",d," lengths ",i,",",j); } );
	section("near");                  // points and lines very close to each other are still on the right side, and still apart
	for( auto& e: E ) for( auto& a: grid(-1,-1,1,1) ) for( auto& d: dirs ) for( double k: {-1.,0.,0.5,2.} ) for( double h: {1e-2,1e-4,1e-6,1e-7,-1e-3,-1e-5,-1e-7} )
		run( [&]{
			double ax=e.X(a.x,a.y), ay=e.Y(a.x,a.y), dx=e.X(a.x+d.x,a.y+d.y)-ax, dy=e.Y(a.x+d.x,a.y+d.y)-ay, n=std::hypot(dx,dy);
			Line2d l( Point2d(ax,ay), Point2d(ax+dx,ay+dy) ); Point2d q( ax+k*dx-h*dy/n, ay+k*dy+h*dx/n );
			bool flip = -dy<0 || ( dy==0 && dx<0 );
			int s=(h>0)!=flip?1:-1; step(3);
			check( side(q,l)==s, "near-side", [&]{ return str("side=",side(q,l)," expected ",s," line ",l," point ",q); } );
			check( std::fabs(l.distTo(q)-std::fabs(h))<1e-9, "near-dist", [&]{ return str("distance ",l.distTo(q)); } );
			check( thrown([&]{ l.getPoints(q,1.); })==1 && thrown([&]{ l.getRotatedLine(q,1.); })==1, "near-on-line", "a point beside the line was accepted as on it" );
			auto sg=l.getOrthogSegment(q); check( std::fabs(sg.length()-std::fabs(h))<1e-9, "near-orthogSegment", [&]{ return str(sg); } );
			auto pl=l.getParallelLine(q); check( pl!=l && std::fabs( getParallelDistance(l,pl)-std::fabs(h) )<1e-9, "near-parallel", [&]{ return str(pl," ",l," ",getParallelDistance(l,pl)); } );
			outcome( mix(hd(h),s) );
		}, [&]{ return str("a=",a," dir=",d," at ",k," offset ",h," emb=",e.name); } );
	section("collinear");
	for( auto& e: E ) for( auto& a: grid(0,0,n,n) ) for( auto& b: grid(0,0,n,n) ) for( auto& c: grid(0,0,n,n) )
		run( [&]{ auto P=[&]( const IP& p ){ return Point2d(e.X(p.x,p.y),e.Y(p.x,p.y)); }; bool r=areCollinear(P(a),P(b),P(c)); check( r==(cross(a,b,c)==0), "collinear" ); outcome(r); step(); }, [&]{ return str("points ",a,b,c," emb=",e.name); } );
	return finish();
}
