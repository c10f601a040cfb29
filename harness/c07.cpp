// C07: segments, oriented or not: canonical form, derived geometry, histories
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;
template<class T> double tolOf() { return sizeof(T)==4 ? 1e-5 : 1e-9; }
struct V { double x,y; };
static bool less( V a, V b ) { return a.x!=b.x ? a.x<b.x : a.y<b.y; }
template<class S> constexpr bool oriented() { return std::is_same_v<typename S::SType,typ::IsOSeg>; }

template<class S>
struct Q1
{
	typedef typename S::FType T;
	V a,b; double t; bool exact;
	Point2d_<T> A,B;
	bool is( const Point2d_<double>& p, double x, double y ) const { return std::fabs(p.getX()-x)<=t && std::fabs(p.getY()-y)<=t; }
	template<class P> bool isP( const P& p, double x, double y ) const { return std::fabs(p.getX()-x)<=t && std::fabs(p.getY()-y)<=t; }
	template<class X> bool isS( const X& s, double x1,double y1,double x2,double y2 ) const // with the order of its kind
	{
		if( !oriented<X>() && !less({x1,y1},{x2,y2}) ) { std::swap(x1,x2); std::swap(y1,y2); }
		auto p=s.getPts();
		if( isP(p.first,x1,y1) && isP(p.second,x2,y2) ) return oriented<X>() || !(p.second<p.first);
		// rounding may swap the order when the x are the same up to rounding
		return !oriented<X>() && std::fabs(x1-x2)<=t && isP(p.first,x2,y2) && isP(p.second,x1,y1) && !(p.second<p.first);
	}
};
template<class S>
void derived( const S& s, V a, V b, const std::vector<V>& qs, double sc, bool exact, const char* when )
{
	typedef typename S::FType T;
	constexpr bool O=oriented<S>();
	if( !O && less(b,a) ) std::swap(a,b);
	Q1<S> c{a,b,tolOf<T>()*sc,exact,Point2d_<T>((T)a.x,(T)a.y),Point2d_<T>((T)b.x,(T)b.y)};
	double dx=b.x-a.x, dy=b.y-a.y, L=std::hypot(dx,dy), t=c.t;
	step(20);
	auto W=[&]( const char* f ){ return [=,&s]{ return str(when,": ",f," of ",s); }; };
	auto p=s.getPts();
	check( p.first==c.A && p.second==c.B, "points", W("points") );
	check( s.size()==2 && s.area()==0 && s.type()==(O?Type::OSegment:Type::Segment) && h2d::type(s)==s.type() && h2d::size(s)==2 && h2d::area(s)==0, "attrs" );
	check( std::fabs(s.length()-L)<=t && std::fabs(h2d::length(s)-L)<=t, "length", W("length") );
	check( c.isP(s.getCenter(),(a.x+b.x)/2,(a.y+b.y)/2), "center", W("center") );
	auto li=s.getLine(); check( li.distTo(c.A)<=t*10 && li.distTo(c.B)<=t*10, "line", W("line") );
	auto sp=s.split(); check( c.isS(sp.first,a.x,a.y,(a.x+b.x)/2,(a.y+b.y)/2) && c.isS(sp.second,(a.x+b.x)/2,(a.y+b.y)/2,b.x,b.y), "split", W("split") );
	auto sp2=split(s); check( sp2.first==sp.first && sp2.second==sp.second, "split-free" );
	auto bi=s.getBisector(); check( std::fabs(bi.getAngle(li)-M_PI/2)<1e-3 && bi.distTo(Point2d_<double>((a.x+b.x)/2,(a.y+b.y)/2))<=t*10 && std::fabs(bi.distTo(c.A)-L/2)<=t*10 && std::fabs(bi.distTo(c.B)-L/2)<=t*10, "bisector", W("bisector") );
	auto ex=s.getExtended(); { auto c2=c; c2.t=t*100; check( c2.isS(ex,a.x-dx,a.y-dy,b.x+dx,b.y+dy), "extended", [&]{ return str(when,": ",ex," from ",s); } ); }
	for( double d: {0.5,4.} )
	{
		auto ps=s.getParallelSegs(d); double nx=-dy/L*d, ny=dx/L*d; // left side first
		auto c2=c; c2.t=t*100;
		bool direct=c2.isS(ps.first,a.x+nx,a.y+ny,b.x+nx,b.y+ny)&&c2.isS(ps.second,a.x-nx,a.y-ny,b.x-nx,b.y-ny);
		bool swapped=c2.isS(ps.second,a.x+nx,a.y+ny,b.x+nx,b.y+ny)&&c2.isS(ps.first,a.x-nx,a.y-ny,b.x-nx,b.y-ny);
		check( direct || (!O && swapped), "parallelSegs", [&]{ return str(when,": ",ps.first," ",ps.second," from ",s," distance ",d); } );
	}
	check( thrown([&]{ s.getParallelSegs(0); })==1 && thrown([&]{ s.getParallelSegs(-1.); })==1, "parallelSegs-throw" );
	{	// 4 points at the length of the segment, orthogonally to each of its points; the segments join them
		auto op=s.getOrthogPts(); auto os=s.getOrthogSegs();
		int used=0; V w[]={{a.x-dy,a.y+dx},{a.x+dy,a.y-dx},{b.x-dy,b.y+dx},{b.x+dy,b.y-dx}};
		int us=0;
		for( int i=0;i<4;i++ ) for( int k=0;k<4;k++ ) { if( c.isP(op[i],w[k].x,w[k].y) ) used|=1<<k; V e=k<2?a:b; if( c.isS(os[i],e.x,e.y,w[k].x,w[k].y) ) us|=1<<k; }
		check( used==15, "orthogPts", W("orthogPts") ); check( us==15, "orthogSegs", W("orthogSegs") );
		bool ring=true; for( int i=0;i<4;i++ ) { double u=op[i].distTo(op[(i+1)%4]); ring=ring&&( std::fabs(u-L)<=t*10 || std::fabs(u-2*L)<=t*10 ); } check( ring, "orthogPts-order" );
	}
	for( auto& q: qs )
	{
		Point2d_<T> P((T)q.x,(T)q.y);
		LD u=((q.x-a.x)*(LD)dx+(q.y-a.y)*(LD)dy)/((LD)L*L), cr=((LD)dx*(q.y-a.y)-(LD)dy*(q.x-a.x));
		LD cx= u<0?a.x:u>1?b.x:a.x+u*dx, cy=u<0?a.y:u>1?b.y:a.y+u*dy; double ed=std::hypot(q.x-cx,q.y-cy);
		int k=99, ek=u<-1e-12?-1:u>1+1e-12?1:0; double d=s.distTo(P,&k), d2=s.distTo(P), d3=P.distTo( Segment_<T>(s) );
		bool edge=std::fabs(u)<1e-9||std::fabs(u-1)<1e-9;
		check( std::fabs(d-ed)<=t && std::fabs(d2-ed)<=t && std::fabs(d3-ed)<=t, "distTo", [&]{ return str(when,": distance of ",P," to ",s," is ",d," expected ",ed); } );
		check( k==ek || (edge && !exact), "distCase", [&]{ return str(when,": case ",k," expected ",ek," for ",P," and ",s); } );
		if constexpr( O )
		{
			auto side=s.getPointSide(P); auto es = std::fabs(cr)<(exact&&sizeof(T)>4?3e-10L*L:1e-9L*L*sc) ? PointSide::Neither : cr>0 ? PointSide::Left : PointSide::Right;
			if( exact || es!=PointSide::Neither ) check( side==es, "pointSide", [&]{ return str(when,": ",getString(side)," expected ",getString(es)," for ",P," and ",s); } );
		}
	}
	for( size_t i=0; i+5<qs.size(); i+=2 ) for( size_t j: {i+1,i+5} ) // angle with other segments and lines
	{
		V f=qs[i], g=qs[j]; double ex2=g.x-f.x, ey2=g.y-f.y, l2=std::hypot(ex2,ey2); if( l2<1e-3*L ) continue;
		Point2d_<T> F((T)f.x,(T)f.y), G((T)g.x,(T)g.y); OSegment_<T> o(F,G); Segment_<T> n(F,G); Line2d_<T> ln(F,G);
		double w=dx*ey2-dy*ex2, dt=dx*ex2+dy*ey2, ta=sizeof(T)==4?5e-3:2e-6, al=std::atan2(std::fabs(w),std::fabs(dt));
		double a1=s.getAngle(o), a2=o.getAngle(s), a3=h2d::getAngle(s,o), n1=s.getAngle(n), n2=n.getAngle(s), l1=s.getAngle(ln), l3=ln.getAngle(s), l4=h2d::getAngle(s,ln);
		auto near=[&]( double u, double v ){ double d=std::fabs(u-v); return d<ta || std::fabs(d-2*M_PI)<ta; };
		if constexpr( O ) check( near(a1,std::atan2(w,dt)) && near(a2,std::atan2(-w,dt)) && near(a3,a1), "angle-oriented", [&]{ return str(when,": ",a1," ",a2," ",a3," expected ",std::atan2(w,dt)," between ",s," and ",o); } );
		else check( near(a1,al) && near(a2,al) && near(a3,al), "angle-mixed", [&]{ return str(when,": ",a1," ",a2," ",a3," expected ",al," between ",s," and ",o); } );
		check( near(n1,al) && near(n2,al) && near(l1,al) && near(l3,al) && near(l4,al), "angle-lines", [&]{ return str(when,": ",n1," ",n2," ",l1," ",l3," ",l4," expected ",al," between ",s," and ",n); } );
	}
	if constexpr( O )
	{
		auto v=s.getVector(); check( std::fabs(v.first-dx)<=t && std::fabs(v.second-dy)<=t, "vector" );
		for( double f: {0.,0.25,0.5,1.,2.5} ) check( c.isP(s.getPointAt(f*L),a.x+f*dx,a.y+f*dy), "pointAt", [&]{ return str(when,": at ",f," of ",s," is ",s.getPointAt(f*L)); } );
		check( thrown([&]{ s.getPointAt(-0.5); })==1, "pointAt-throw" );
		for( double f: {0.25,0.5,0.9} ) { auto z=s.split(f*L); check( c.isS(z.first,a.x,a.y,a.x+f*dx,a.y+f*dy) && c.isS(z.second,a.x+f*dx,a.y+f*dy,b.x,b.y), "splitAt", [&]{ return str(when,": ",z.first,z.second); } ); auto y=split(s,f*L); check( y.first==z.first && y.second==z.second, "splitAt-free" ); }
		check( thrown([&]{ s.split(0); })==1 && thrown([&]{ s.split(-1.); })==1 && thrown([&]{ s.split(1.01*L+1); })==1, "splitAt-throw" );
		S cp=s; S r=-cp; auto rp=r.getPts(); check( rp.first==c.B && rp.second==c.A, "reverse" ); check( cp==s, "reverse-operand", "unary minus changed its operand" ); const S cc=s; S r2=-(-cc); check( r2==s && cc==s, "reverse-twice" );
	}
	else
	{
		check( h2d::getPts(s)==s.getPts() && getCenter(s)==Point2d_<T>(s.getCenter()) && getExtended(s)==ex && getOrthogPts(s)==s.getOrthogPts() && getOrthogSegs(s)==s.getOrthogSegs(), "free" );
		if( sizeof(T)==8 ) { check( getLine(s)==li && getBisector(s)==bi, "free-lines" ); auto u=getParallelSegs(s,2.), w=s.getParallelSegs(2.); check( u.first==w.first&&u.second==w.second, "free-par" ); }
	}
	outcome( mix(hd(L),mix(hd(bi.get()[2]),hd(li.get()[2]))) );
}
template<class S>
void one( const IP& a, const IP& b, const Emb& e )
{
	typedef typename S::FType T;
	auto E=[&]( double x,double y ){ return V{(double)(T)e.X(x,y),(double)(T)e.Y(x,y)}; };
	V A=E(a.x,a.y), B=E(b.x,b.y);
	double sc=std::max({1.,std::fabs(A.x),std::fabs(A.y),std::fabs(B.x),std::fabs(B.y)})*10;
	std::vector<V> qs; for( auto& q: grid(-1,-1,4,4) ) qs.push_back(E(q.x,q.y)); qs.push_back(E(a.x+(b.x-a.x)*0.5,a.y+(b.y-a.y)*0.5)); qs.push_back(E(2*b.x-a.x,2*b.y-a.y));
	if( sizeof(T)>4 ) for( double h: {1e-3,-1e-5,1e-6} ) for( double k: {-1.,0.25,1.5} ) qs.push_back(E(a.x+(b.x-a.x)*k-(b.y-a.y)*h,a.y+(b.y-a.y)*k+(b.x-a.x)*h));
	Point2d_<T> pa((T)A.x,(T)A.y), pb((T)B.x,(T)B.y);
	S s(pa,pb); derived(s,A,B,qs,sc,e.exact,"points");
	S s2((T)A.x,(T)A.y,(T)B.x,(T)B.y), s3(std::make_pair(pa,pb)), s4; s4.set(pa,pb); S s5; s5.set((T)A.x,(T)A.y,(T)B.x,(T)B.y); S s6; s6.set(std::make_pair(pa,pb));
	check( s==s2&&s==s3&&s==s4&&s==s5&&s==s6 && !(s!=s2), "constructions" );
	S rev(pb,pa); check( (rev==s)==!oriented<S>(), "reversed-equal" );
	if( oriented<S>() ) { Segment_<T> u(s), w(rev); check( u==w && u.getPts()==Segment_<T>(pa,pb).getPts(), "unoriented-copy" ); derived(u,A,B,{},sc,e.exact,"from OSegment"); }
	// refused
	S keep=s;
	check( thrown([&]{ S z(pa,pa); })==1 && thrown([&]{ s.set(pb,pb); })==1 && thrown([&]{ s.set((T)A.x,(T)A.y,(T)A.x,(T)A.y); })==1 && thrown([&]{ s.set(std::make_pair(pa,pa)); })==1, "degenerate-throw" );
	check( s==keep, "degenerate-state" ); { auto p=s.getPts(), k=keep.getPts(); check( p.first==k.first&&p.second==k.second, "degenerate-state" ); }
}
// histories on one object, against a pair-of-points model
template<class S>
struct Hist
{
	typedef typename S::FType T;
	static constexpr int NOPS=12;
	static const char* name( int o ) { static const char* n[]={"set(2,1)-(0,3)","set(0,5)-(0,1)","set-degenerate","moveTo(3,-1)","moveTo(1.5,2.5)","translate(-2,1)","translate-pair(0,-4)","copy-assign","free-translate(1,1)","free-moveTo(-1,-1)","reverse/self-set","read-all"}; return n[o]; }
	S s{Point2d_<T>(1,1),Point2d_<T>(3,0)}; V a{1,1},b{3,0};
	void fix() { if( !oriented<S>() && less(b,a) ) std::swap(a,b); }
	void op( int o )
	{
		auto mv=[&]( double x,double y ){ V d{x-a.x,y-a.y}; a.x+=d.x;a.y+=d.y;b.x+=d.x;b.y+=d.y; };
		step();
		switch( o )
		{
			case 0: s.set(Point2d_<T>(2,1),Point2d_<T>(0,3)); a={2,1};b={0,3}; fix(); break;
			case 1: s.set(0,5,0,1); a={0,5};b={0,1}; fix(); break;
			case 2: check( thrown([&]{ s.set(Point2d_<T>(7,7),Point2d_<T>(7,7)); })==1, "hist-throw" ); break;
			case 3: s.moveTo(Point2d_<T>(3,-1)); mv(3,-1); break;
			case 4: s.moveTo(1.5,2.5); mv(1.5,2.5); break;
			case 5: s.translate(-2,1); mv(a.x-2,a.y+1); break;
			case 6: s.translate(std::make_pair(0.,-4)); mv(a.x,a.y-4); break;
			case 7: { S c=s; S d; d=c; c.translate(100,100); s=d; } break;
			case 8: translate(s,1,1); mv(a.x+1,a.y+1); break;
			case 9: moveTo(s,Point2d_<T>(-1,-1)); mv(-1,-1); break;
			case 10: if constexpr( oriented<S>() ) { s=-s; std::swap(a,b); } else { auto p=s.getPts(); s.set(p.second,p.first); } break;
			case 11: s.length(); s.getLine(); s.getCenter(); s.getExtended(); s.split(); break;
		}
	}
};
template<class S>
void hist( const std::vector<int>& ops )
{
	Hist<S> h; for( int o: ops ) h.op(o);
	derived( h.s, h.a, h.b, {{0,0},{1,2},{3,-1},{-2,4}}, 20, true, "history" );
}
template<class S> void hists( const char* n, int depth )
{
	section(std::string("history-")+n);
	std::vector<int> cur;
	std::function<void()> rec=[&]{ 
		run( [&]{ hist<S>(cur); }, [&]{ std::string d=n; for( int o: cur ) d+=std::string(" ")+Hist<S>::name(o); return d; } );
		if( (int)cur.size()==depth ) return;
		for( int o=0;o<Hist<S>::NOPS;o++ ) { cur.push_back(o); rec(); cur.pop_back(); } };
	rec();
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=tilted(); int n=thorough()?7:3;
	const Emb far{ 0.7, 15000.3, -22000.6, false, false, "far" };
	std::vector<Emb> em=E; em.push_back(far);
	section("segments");
	for( auto& e: em ) for( auto& a: grid(0,0,n,n) ) for( auto& b: grid(0,0,n,n) ) if( a!=b )
	{
		run( [&]{ one<Segment>(a,b,e); }, [&]{ return str("Segment ",a,b," emb=",e.name); } );
		run( [&]{ one<OSegment>(a,b,e); }, [&]{ return str("OSegment ",a,b," emb=",e.name); } );
	}
	section("types");
	for( auto& a: grid(0,0,2,2) ) for( auto& b: grid(0,0,2,2) ) if( a!=b ) for( int i: {0,1,3} )
	{
		if( E[i].exact ) { run( [&]{ one<Segment_<float>>(a,b,E[i]); }, [&]{ return str("Segment float ",a,b," emb=",E[i].name); } );
		run( [&]{ one<OSegment_<float>>(a,b,E[i]); }, [&]{ return str("OSegment float ",a,b," emb=",E[i].name); } ); }
		run( [&]{ one<Segment_<long double>>(a,b,E[i]); }, [&]{ return str("Segment long double ",a,b," emb=",E[i].name); } );
		run( [&]{ one<OSegment_<long double>>(a,b,E[i]); }, [&]{ return str("OSegment long double ",a,b," emb=",E[i].name); } );
	}
	hists<Segment>("Segment",thorough()?6:4); hists<OSegment>("OSegment",thorough()?6:4); hists<Segment_<float>>("Segment-float",3);
	return finish();
}
