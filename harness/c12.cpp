// C12: containment of shapes
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;

struct Frame { const Emb& e; const Poly& cont; Poly ccw; };
static bool edgesClear( const Poly& c, const std::vector<std::pair<IP,IP>>& es ) { for( auto& s: es ) for( size_t i=0;i<c.size();i++ ) if( segTouch(s.first,s.second,c[i],c[(i+1)%c.size()]) ) return false; return true; }
static bool chainIn( const Poly& c, const Poly& p, bool closed )
{
	for( auto& q: p ) if( pip(c,q)!=1 ) return false;
	std::vector<std::pair<IP,IP>> es; for( size_t i=0;i+1<p.size();i++ ) es.push_back({p[i],p[i+1]}); if( closed ) es.push_back({p.back(),p[0]});
	return edgesClear(c,es);
}
// circle (center, r²) strictly inside polygon: 1 yes, 0 no, -1 tangent
static int circIn( const Poly& c, const IP& q, ll r2 )
{
	if( pip(c,q)!=1 ) return 0;
	int res=1;
	for( size_t i=0;i<c.size();i++ )
	{
		const IP &a=c[i],&b=c[(i+1)%c.size()]; ll L=d2(a,b), t=(q.x-a.x)*(b.x-a.x)+(q.y-a.y)*(b.y-a.y); Q dd;
		if( t<=0 ) dd=Q(d2(a,q)); else if( t>=L ) dd=Q(d2(b,q)); else { ll k=cross(a,b,q); dd=Q::of(k*k,L); }
		if( dd<Q(r2) ) return 0; if( dd==Q(r2) ) res=-1;
	}
	return res;
}
static bool isSq( ll q ) { ll k=std::llround(std::sqrt((double)q)); return k*k==q; }
#define EXPECT(call,exp,tag) do { step(); bool g_=(call); check( g_==(exp), tag, [&]{ return str(g_," expected ",bool(exp)); } ); } while(0)

template<class T> struct Mk
{
	const Emb& e;
	Point2d_<T> P( const IP& p ) const { return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); }
	std::vector<Point2d_<T>> V( const Poly& p ) const { std::vector<Point2d_<T>> v; for( auto& q: p ) v.push_back(P(q)); return v; }
	Circle_<T> C( const IP& c, ll r2 ) const { return Circle_<T>( P(c), (T)(std::sqrt((double)r2)*e.s) ); }
};
// every inner shape against one polygon
template<class T,class U>
void inPoly( const Poly& c, const CPolyline_<U>& cp, const Emb& e, const Poly& in )
{
	Mk<T> m{e};
	if( in.size()==2 )
	{
		bool ex=chainIn(c,in,false); Segment_<T> s(m.P(in[0]),m.P(in[1])); OSegment_<T> o(m.P(in[1]),m.P(in[0]));
		EXPECT( s.isInside(cp), ex, "segment/polygon" ); EXPECT( o.isInside(cp), ex, "osegment/polygon" ); EXPECT( (-o).isInside(cp), ex, "osegment/polygon" );
		EXPECT( OPolyline_<T>(m.V(in)).isInside(cp), ex, "open/polygon" );
		const IP &a=in[0],&b=in[1];
		if( a.x!=b.x && a.y!=b.y && e.m01==0 && e.m10==0 ) { Poly r{a,{a.x,b.y},b,{b.x,a.y}}; bool rx=chainIn(c,r,true); EXPECT( FRect_<T>(m.P(a),m.P(b)).isInside(cp), rx, "rect/polygon" ); EXPECT( CPolyline_<T>(m.V(r)).isInside(cp), rx, "closed/polygon" ); outcome(rx+10); }
		outcome(ex);
	}
	else
	{
		bool ex=chainIn(c,in,false), ec=chainIn(c,in,true);
		EXPECT( OPolyline_<T>(m.V(in)).isInside(cp), ex, "open/polygon" ); EXPECT( CPolyline_<T>(m.V(in)).isInside(cp), ec, "closed/polygon" ); outcome( ex*2+ec );
	}
}
template<class T,class U>
void circInPoly( const Poly& c, const CPolyline_<U>& cp, const Emb& e, const IP& q, ll r2 )
{
	Mk<T> m{e}; int x=circIn(c,q,r2); if( x<0 && !(e.exact && isSq(r2)) ) { step(); (void)m.C(q,r2).isInside(cp); outcome(99); return; }
	// a tangency that is not axis-aligned is decided by rounding
	if( x<0 ) for( size_t i=0;i<c.size();i++ ) { const IP &a=c[i],&b=c[(i+1)%c.size()]; if( a.x!=b.x&&a.y!=b.y ) return; }
	EXPECT( m.C(q,r2).isInside(cp), x==1, "circle/polygon" ); outcome( 200+x );
}
// containers: circle, rectangle
template<class T,class U>
void inCircle( const IP& q, ll r2, const Emb& e, const Poly& in )
{
	Mk<T> m{e}; Mk<U> k{e}; auto c=k.C(q,r2); bool edge=false, ex=true; for( auto& p: in ) { if( d2(p,q)==r2 ) edge=true; if( d2(p,q)>=r2 ) ex=false; }
	if( edge && !(e.exact && isSq(r2)) ) { bool far=false; for( auto& p: in ) if( d2(p,q)>r2 ) far=true; if( !far ) return; }
	if( in.size()==1 ) { EXPECT( m.P(in[0]).isInside(c), ex, "point/circle" ); EXPECT( m.P(in[0]).isInside(m.P(q),std::sqrt((double)r2)*e.s), ex, "point/center,radius" ); return; }
	if( in.size()==2 )
	{
		EXPECT( Segment_<T>(m.P(in[0]),m.P(in[1])).isInside(c), ex, "segment/circle" ); EXPECT( OSegment_<T>(m.P(in[1]),m.P(in[0])).isInside(c), ex, "osegment/circle" );
		const IP &a=in[0],&b=in[1];
		if( a.x!=b.x && a.y!=b.y ) { bool rx=true, re=false; for( auto& p: Poly{a,{a.x,b.y},b,{b.x,a.y}} ) { if( d2(p,q)>=r2 ) rx=false; if( d2(p,q)==r2 ) re=true; }
			if( !re || (e.exact&&isSq(r2)) ) { EXPECT( FRect_<T>(m.P(a),m.P(b)).isInside(c), rx, "rect/circle" ); EXPECT( CPolyline_<T>(FRect_<T>(m.P(a),m.P(b))).isInside(c), rx, "rect polygon/circle" ); outcome(30+rx); } }
	}
	EXPECT( OPolyline_<T>(m.V(in)).isInside(c), ex, "open/circle" ); if( in.size()>2 ) EXPECT( CPolyline_<T>(m.V(in)).isInside(c), ex, "closed/circle" );
	outcome( 40+ex );
}
template<class T,class U>
void inRect( const IP& ra, const IP& rb, const Emb& e, const Poly& in )
{
	Mk<T> m{e}; Mk<U> k{e}; FRect_<U> r(k.P(ra),k.P(rb)); bool ex=true; for( auto& p: in ) if( !(p.x>ra.x&&p.x<rb.x&&p.y>ra.y&&p.y<rb.y) ) ex=false;
	if( in.size()==1 )
	{
		EXPECT( m.P(in[0]).isInside(r), ex, "point/rect" ); EXPECT( m.P(in[0]).isInside(m.P(rb),m.P(ra)), ex, "point/corners" ); EXPECT( m.P(in[0]).isInside(m.P({ra.x,rb.y}),m.P({rb.x,ra.y})), ex, "point/corners" );
		for( ll r2: {1,4,2} ) { double R=std::sqrt((double)r2); const IP& q=in[0]; double mn=std::min({q.x-ra.x+0.,rb.x-q.x+0.,q.y-ra.y+0.,rb.y-q.y+0.}); if( mn==R && !e.exact ) continue; bool cx=mn>R; auto c=m.C(q,r2); EXPECT( c.isInside(r), cx, "circle/rect" ); EXPECT( c.isInside(k.P(rb),k.P(ra)), cx, "circle/corners" ); outcome(50+cx); }
		return;
	}
	if( in.size()==2 )
	{
		EXPECT( Segment_<T>(m.P(in[0]),m.P(in[1])).isInside(r), ex, "segment/rect" ); EXPECT( OSegment_<T>(m.P(in[1]),m.P(in[0])).isInside(r), ex, "osegment/rect" );
		if( in[0].x!=in[1].x && in[0].y!=in[1].y ) { EXPECT( FRect_<T>(m.P(in[0]),m.P(in[1])).isInside(r), ex, "rect/rect" ); EXPECT( CPolyline_<T>(FRect_<T>(m.P(in[0]),m.P(in[1]))).isInside(r), ex, "rect polygon/rect" ); EXPECT( FRect_<T>(m.P(in[0]),m.P(in[1])).isInside(CPolyline_<U>(r)), ex, "rect/rect polygon" ); }
	}
	EXPECT( OPolyline_<T>(m.V(in)).isInside(r), ex, "open/rect" ); if( in.size()>2 ) EXPECT( CPolyline_<T>(m.V(in)).isInside(r), ex, "closed/rect" );
	outcome( 60+ex );
}
// ellipse as container: center, semi-axes and an exact orientation (quarter or 3-4-5)
struct El { IP c; ll a,b; int dx,dy; };                // unit direction (dx,dy)/h
static int elSide( const El& l, const IP& p )          // sign of f(p): -1 inside
{
	ll h2=l.dx*l.dx+l.dy*l.dy; i128 u=(p.x-l.c.x)*l.dx+(p.y-l.c.y)*l.dy, v=-(p.x-l.c.x)*l.dy+(p.y-l.c.y)*l.dx;
	i128 f=u*u*l.b*l.b+v*v*l.a*l.a-(i128)h2*l.a*l.a*l.b*l.b; return (f>0)-(f<0);
}
template<class T,class U>
void inEllipse( const El& l, const Poly& in )
{
	Ellipse_<U> el( (U)l.c.x,(U)l.c.y,(U)l.a,(U)l.b,(U)std::atan2((double)l.dy,(double)l.dx) ); Mk<T> m{embeddings()[0]};
	bool ex=true, edge=false; for( auto& p: in ) { int s=elSide(l,p); if( s==0 ) edge=true; if( s>=0 ) ex=false; }
	bool out=false; for( auto& p: in ) if( elSide(l,p)>0 ) out=true;
	if( edge && !out ) return;
	if( in.size()==1 ) { EXPECT( m.P(in[0]).isInside(el), ex, "point/ellipse" ); outcome(70+ex); return; }
	if( in.size()==2 ) { EXPECT( Segment_<T>(m.P(in[0]),m.P(in[1])).isInside(el), ex, "segment/ellipse" ); EXPECT( OSegment_<T>(m.P(in[1]),m.P(in[0])).isInside(el), ex, "osegment/ellipse" );
		const IP &a=in[0],&b=in[1]; if( a.x!=b.x&&a.y!=b.y ) { bool rx=true, re=false; for( auto& p: Poly{a,{a.x,b.y},b,{b.x,a.y}} ) { int s=elSide(l,p); if( s>=0 ) rx=false; if( s==0 ) re=true; } if( !re ) { EXPECT( FRect_<T>(m.P(a),m.P(b)).isInside(el), rx, "rect/ellipse" ); outcome(80+rx); } } }
	EXPECT( OPolyline_<T>(m.V(in)).isInside(el), ex, "open/ellipse" ); if( in.size()>2 ) EXPECT( CPolyline_<T>(m.V(in)).isInside(el), ex, "closed/ellipse" );
	outcome( 90+ex );
}
template<class A,class B> void never( const A& a, const B& b, const char* n ) { step(); bool r=a.isInside(b); check( !r, "never", n ); }
template<class T>
void neverAll( const Emb& e )
{
	// small shapes around the origin, containers that hold them geometrically
	Mk<T> m{e}; Point2d_<T> p=m.P({0,0}); Line2d_<T> l(m.P({0,0}),m.P({1,1})); Segment_<T> s(m.P({0,0}),m.P({1,1})); OSegment_<T> o(m.P({0,0}),m.P({1,1})); FRect_<T> r(m.P({0,0}),m.P({1,1}));
	CPolyline_<T> c(m.V({{0,0},{1,0},{0,1}})); OPolyline_<T> op(m.V({{0,0},{1,0},{0,1}})); Circle_<T> ci=m.C({0,0},1); Ellipse_<T> el(ci);
	Point2d_<T> P=p; Line2d_<T> L(m.P({0,0}),m.P({2,2})); Segment_<T> S(m.P({-5,-5}),m.P({5,5})); OSegment_<T> O(m.P({5,5}),m.P({-5,-5})); OPolyline_<T> OP(m.V({{-9,-9},{9,-9},{9,9},{-9,9}})); 
	FRect_<T> R(m.P({-9,-9}),m.P({9,9})); CPolyline_<T> C(R); Circle_<T> CI=m.C({0,0},100); Ellipse_<T> EL(CI);
	auto all=[&]( auto& B, const char* n ){ never(p,B,n); never(l,B,n); never(s,B,n); never(o,B,n); never(r,B,n); never(c,B,n); never(op,B,n); never(ci,B,n); never(el,B,n); };
	all(P,"in point"); all(L,"in line"); all(S,"in segment"); all(O,"in osegment"); all(OP,"in open polyline");
	never(l,R,"line in rect"); never(l,C,"line in polygon"); never(l,CI,"line in circle"); never(l,EL,"line in ellipse"); never(ci,EL,"circle in ellipse (not implemented)"); never(el,EL,"ellipse in ellipse (not implemented)");
	// self crossing polygon holds nothing
	CPolyline_<T> X(m.V({{-9,-9},{9,9},{9,-9},{-9,9}})); Point2d_<T> q=m.P({4,1}); Segment_<T> t(m.P({4,1}),m.P({5,1})); never(q,X,"bow tie"); never(t,X,"bow tie"); never(FRect_<T>(m.P({4,0}),m.P({5,1})),X,"bow tie"); never(m.C({5,0},1),X,"bow tie"); never(m.C({-5,0},1),X,"bow tie"); never(CPolyline_<T>(m.V({{4,1},{5,1},{5,0}})),X,"bow tie");
	// objects never hold themselves
	never(R,R,"rect in itself"); never(C,C,"polygon in itself"); never(CI,CI,"circle in itself"); never(R,C,"rect in its polygon"); never(C,R,"polygon in its rect");
	OPolyline_<T> eo; CPolyline_<T> ec; never(eo,R,"empty"); never(ec,CI,"empty"); never(ec,C,"empty"); never(eo,C,"empty");
	outcome(1);
}
// ellipse as inner shape: the documentation announces rectangle, closed polyline and circle as containers
static void ellipseInner( const El& l, int cont, bool big )
{
	Ellipse_<double> el( (double)l.c.x,(double)l.c.y,(double)l.a,(double)l.b,std::atan2((double)l.dy,(double)l.dx) );
	double k=big?100:1; FRect_<double> r(-k,-k,k,k); bool ex=big;
	if( cont==0 ) EXPECT( el.isInside(r), ex, "ellipse/rect" );
	if( cont==1 ) EXPECT( el.isInside(CPolyline_<double>(r)), ex, "ellipse/polygon" );
	if( cont==2 ) EXPECT( el.isInside(Circle_<double>(0.,0.,k)), ex, "ellipse/circle" );
	outcome( cont*2+big );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=withFar(embeddings()); bool th=thorough();
	// polygons on the even grid; inner points on every lattice point
	std::vector<Poly> polys; for( auto p: polyominoes(3,3) ) { for( auto& q: p ) { q.x*=2; q.y*=2; } polys.push_back(p); }
	size_t npo=polys.size();
	std::vector<Poly> slanted{ {{0,0},{6,0},{3,6}}, {{3,0},{6,3},{3,6},{0,3}}, {{0,0},{6,0},{6,6},{3,2},{0,6}}, {{0,0},{3,1},{6,0},{5,3},{6,6},{3,5},{0,6},{1,3}}, {{0,0},{6,1},{2,2},{6,5},{0,6}}, {{0,3},{2,2},{3,0},{4,2},{6,3},{4,4},{3,6},{2,4}}, {{0,0},{3,0},{6,0},{6,3},{6,6},{3,6},{0,6},{0,3}}, {{0,0},{6,0},{6,6},{4,6},{4,2},{2,2},{2,6},{0,6}}, {{0,0},{6,0},{6,6},{1,6},{1,3},{4,3},{4,4},{2,4},{2,5},{5,5},{5,1},{0,1}} };
	auto g=grid(0,0,6,6); auto gi=grid(1,1,5,5);
	std::vector<int> embs=th?std::vector<int>{0,1,2,3,4,5,6}:std::vector<int>{0,2,3,4,6};
	std::vector<Emb> X=skewed(); const int nb=(int)X.size();            // maps that make edges nearly parallel
	X=flattened(X);
	auto doPoly=[&]( const Poly& c, size_t id, bool all, bool lin=false )
	{
		if( lin ) for( int ei=6;ei<(int)X.size();ei++ ) for( size_t lk: { size_t(0), c.size()+c.size()/2 } )
		{
			const Emb& e=X[ei]; Poly cl=listing(c,lk); Mk<double> m{e}; CPolyline_<double> cp(m.V(cl));
			for( size_t i=0;i<g.size();i++ ) for( size_t j=i+1;j<g.size();j++ ) if( (all&&th) || (i*7+j*3+id+lk+ei)%(ei<nb&&!th?5:2)==0 )
				run( [&]{ inPoly<double,double>(cl,cp,e,{g[i],g[j]}); }, [&]{ return str(g[i],g[j]," in ",cl," emb=",e.name); } );
			if( ei<9 ) for( auto& q: gi ) for( ll r2: {1,2,4,5} ) run( [&]{ circInPoly<double,double>(cl,cp,e,q,r2); }, [&]{ return str("circle ",q," r2=",r2," in ",cl," emb=",e.name); } );
		}
		else for( int ei: embs ) for( size_t lk: { size_t(0), c.size()+c.size()/2 } )
		{
			const Emb& e=E[ei]; Poly cl=listing(c,lk); Mk<double> m{e}; CPolyline_<double> cp(m.V(cl));
			for( size_t i=0;i<g.size();i++ ) for( size_t j=i+1;j<g.size();j++ ) if( all || (i*7+j*3+id+lk)%5==0 )
				run( [&]{ inPoly<double,double>(cl,cp,e,{g[i],g[j]}); }, [&]{ return str(g[i],g[j]," in ",cl," emb=",e.name); } );
			for( auto& q: gi ) for( ll r2: {1,2,4,5} ) run( [&]{ circInPoly<double,double>(cl,cp,e,q,r2); }, [&]{ return str("circle ",q," r2=",r2," in ",cl," emb=",e.name); } );
		}
	};
	section("polygon");
	for( size_t i=0;i<slanted.size();i++ ) doPoly( slanted[i], i, true );
	for( size_t i=0;i<npo;i++ ) doPoly( polys[i], i, th );
	section("polygon-nearly-special");
	for( size_t i=0;i<slanted.size();i++ ) doPoly( slanted[i], i, true, true );
	for( size_t i=0;i<npo;i+=th?1:5 ) doPoly( polys[i], i, false, true );
	section("chains-in-polygon");
	auto gc=std::vector<IP>{ {1,1},{1,3},{1,5},{3,1},{3,3},{3,5},{5,1},{5,3},{5,5},{2,3},{3,4} };
	{ const Emb& e=E[0]; Mk<double> m{e}; std::vector<Poly> cs=slanted; for( size_t i=0;i<npo;i+=th?1:4 ) cs.push_back(polys[i]);
	for( auto& c: cs ) { CPolyline_<double> cp(m.V(c)); for( size_t n: {3,4} ) sequences( gc,n,true,true,[&]( const Poly& p ){ if( n==4 && !th && (p[0].x+p[1].y+p[2].x*2+p[3].y)%4 ) return; run( [&]{ inPoly<double,double>(c,cp,e,p); }, [&]{ return str("chain ",p," in ",c); } ); } ); } }
	section("circle");
	auto h=grid(-1,-1,4,4);
	for( auto& e: E ) for( IP q: { IP{1,1},IP{2,1},IP{0,3} } ) for( ll r2: {1,2,4,5,9,10,25} )
	{
		for( auto& a: h ) run( [&]{ inCircle<double,double>(q,r2,e,{a}); }, [&]{ return str(a," in circle ",q," r2=",r2," emb=",e.name); } );
		for( auto& a: h ) for( auto& b: h ) if( a<b ) run( [&]{ inCircle<double,double>(q,r2,e,{a,b}); }, [&]{ return str(a,b," in circle ",q," r2=",r2," emb=",e.name); } );
		sequences( grid(0,0,2,2),3,true,true,[&]( const Poly& p ){ run( [&]{ inCircle<double,double>(q,r2,e,p); }, [&]{ return str(p," in circle ",q," r2=",r2," emb=",e.name); } ); } );
	}
	section("circle-circle");
	for( auto& e: E ) for( auto& c: grid(-5,-5,5,5) ) for( ll a: {1,2,4,5,9,16} ) for( ll b: {1,2,4,5,9,16,25,36} )
		run( [&]{ Mk<double> m{e}; ll D=d2({0,0},c); // sqrt(D)+sqrt(a)<sqrt(b)
			ll t=b-a-D; int x = t<0 ? 0 : ( (i128)t*t==(i128)4*a*D ? -1 : (i128)t*t>(i128)4*a*D ); if( t==0 && (D==0||a==0) ) x=-1;
			if( x<0 && !(e.exact && isSq(D)&&isSq(a)&&isSq(b)) ) return;
			EXPECT( m.C(c,a).isInside(m.C({0,0},b)), x==1, "circle/circle" ); outcome(x); }, [&]{ return str("circle ",c," r2=",a," in circle (0,0) r2=",b," emb=",e.name); } );
	section("rect");
	for( auto& e: E ) for( IP ra: { IP{0,0},IP{1,0} } ) for( IP rb: { IP{3,3},IP{2,4},IP{4,2} } )
	{
		for( auto& a: h ) run( [&]{ inRect<double,double>(ra,rb,e,{a}); }, [&]{ return str(a," in rect ",ra,rb," emb=",e.name); } );
		for( auto& a: h ) for( auto& b: h ) if( a<b ) run( [&]{ inRect<double,double>(ra,rb,e,{a,b}); }, [&]{ return str(a,b," in rect ",ra,rb," emb=",e.name); } );
		sequences( grid(0,0,3,2),3,true,true,[&]( const Poly& p ){ run( [&]{ inRect<double,double>(ra,rb,e,p); }, [&]{ return str(p," in rect ",ra,rb," emb=",e.name); } ); } );
	}
	section("ellipse");
	std::vector<El> els; for( IP c: { IP{0,0},IP{2,-1} } ) for( auto d: std::vector<std::pair<int,int>>{ {1,0},{0,1},{4,3},{3,-4},{1,1} } ) for( auto ab: std::vector<std::pair<ll,ll>>{ {2,1},{3,2},{5,1},{4,3} } ) els.push_back({c,ab.first,ab.second,d.first,d.second});
	auto k=grid(-4,-4,6,4), k2=grid(-2,-2,3,2);
	for( auto& l: els )
	{
		auto D=[&l]{ return str(" in ellipse ",l.c," ",l.a,"x",l.b," dir ",l.dx,",",l.dy); };
		for( auto& a: k ) run( [&]{ inEllipse<double,double>(l,{a}); }, [&]{ return str(a,D()); } );
		for( auto& a: k2 ) for( auto& b: k2 ) if( a<b ) run( [&]{ inEllipse<double,double>(l,{a,b}); }, [&]{ return str(a,b,D()); } );
		sequences( grid(0,0,2,1),3,true,true,[&]( const Poly& p ){ run( [&]{ inEllipse<double,double>(l,p); }, [&]{ return str(p,D()); } ); } );
	}
	section("types");
	for( auto& a: g ) for( auto& b: g ) if( a<b ) run( [&]{ const Poly& c=slanted[7]; Mk<LD> ml{E[1]}; CPolyline_<LD> cl(ml.V(c)); Mk<double> md{E[0]}; CPolyline_<double> cd(md.V(c)); Mk<float> mf{E[0]}; CPolyline_<float> cf(mf.V(c));
		inPoly<LD,LD>(c,cl,E[1],{a,b}); inPoly<float,double>(c,cd,E[0],{a,b}); inPoly<LD,double>(c,cd,E[0],{a,b}); inPoly<float,float>(c,cf,E[0],{a,b}); inPoly<double,float>(c,cf,E[0],{a,b});
		inCircle<float,double>({3,2},9,E[0],{a,b}); inCircle<LD,LD>({3,2},9,E[1],{a,b}); inCircle<double,LD>({3,2},5,E[0],{a,b}); inRect<float,double>({1,1},{4,5},E[0],{a,b}); inRect<LD,LD>({1,1},{4,5},E[0],{a,b}); }, [&]{ return str("types ",a,b); } );
	section("never");
	for( auto& e: E ) run( [&]{ neverAll<double>(e); }, [&]{ return str("double emb=",e.name); } );
	run( [&]{ neverAll<float>(E[0]); }, []{ return "float"; } ); run( [&]{ neverAll<LD>(E[0]); }, []{ return "long double"; } );
	section("ellipse-inner");
	for( int c: {0,1,2} ) for( bool big: {false,true} ) run( [&]{ ellipseInner({{1,0},3,2,1,0},c,big); }, [&]{ return str("ellipse 3x2 at (1,0) in ",c==0?"rect ":c==1?"rect polygon ":"circle ",big?"100":"1"); } );
	section("large");
	for( int n: bigSizes() ) { int id=0; for( auto& p0: big(n) ) { id++; Poly p; for( auto& q: p0 ) p.push_back({2*q.x,2*q.y}); if( !geo::isSimple(p) ) continue; for( size_t lk: {0,n/2,n+3} )
	{
		const Poly c=listing(p,lk%(2*p.size())); const Emb& e=E[lk?3:0]; Mk<double> m{e}; CPolyline_<double> cp(m.V(c));
		IP lo=c[0],hi=c[0]; for( auto& v: c ) { lo.x=std::min(lo.x,v.x); lo.y=std::min(lo.y,v.y); hi.x=std::max(hi.x,v.x); hi.y=std::max(hi.y,v.y); }
		auto D=[&]( const char* w ){ return str(w,' ',n," shape ",id," listing ",lk," emb=",e.name); };
		// pieces of the lattice along and across
		for( ll x=lo.x+1;x<hi.x;x+=2 ) for( ll y: {lo.y+1,lo.y+3,(lo.y+hi.y)/2|1,hi.y-1} ) for( auto d: { IP{1,0},IP{3,1},IP{5,0},IP{-2,5},IP{0,9} } )
			run( [&]{ inPoly<double,double>(c,cp,e,{{x,y},{x+d.x,y+d.y}}); }, [&]{ return D("segment")+str(IP{x,y},d); } );
		// a big chain inside, with one vertex moved out: the saw one unit inside, others
		for( auto in: std::vector<Poly>{ {}, {{lo.x-4,lo.y-4},{hi.x+4,lo.y-4},{hi.x+4,hi.y+4},{lo.x-4,hi.y+4}} } )
		{
			if( in.empty() ) { for( ll x=lo.x+1;x<hi.x;x++ ) in.push_back({x,lo.y+1}); if( in.size()<3 ) continue; run( [&]{ inPoly<double,double>(c,cp,e,in); }, [&]{ return D("chain"); } ); continue; }
			CPolyline_<double> box(m.V(in)); run( [&]{ inPoly<double,double>(in,box,e,c); }, [&]{ return D("in a box"); } );
			for( size_t i=0;i<c.size();i++ ) { Poly w=c; w[i].x=hi.x+9; run( [&]{ inPoly<double,double>(in,box,e,w); }, [&]{ return D("in a box, but vertex ")+str(i); } ); }
			for( size_t i=0;i<c.size();i++ ) { Poly w=c; w[i].x=hi.x+9; ll R=(hi.x-lo.x)*(hi.x-lo.x)+(hi.y-lo.y)*(hi.y-lo.y); run( [&]{ inCircle<double,double>(lo,R+1,e,w); inCircle<double,double>(lo,R+1,e,c); inRect<double,double>({lo.x-1,lo.y-1},{hi.x+1,hi.y+1},e,w); inRect<double,double>({lo.x-1,lo.y-1},{hi.x+1,hi.y+1},e,c); }, [&]{ return D("in a circle, but vertex ")+str(i); } ); }
			// a container with a notch made by each of its vertices in turn
			for( size_t i=0;i<c.size();i++ ) { Poly inner{ {c[i].x-1,c[i].y-1},{c[i].x+1,c[i].y-1},{c[i].x+1,c[i].y+1},{c[i].x-1,c[i].y+1} }; run( [&]{ inPoly<double,double>(c,cp,e,inner); inPoly<double,double>(c,cp,e,{inner[0],inner[2]}); inPoly<double,double>(c,cp,e,{inner[1],inner[3]}); circInPoly<double,double>(c,cp,e,inner[i%4],2); circInPoly<double,double>(c,cp,e,inner[(i+2)%4],1); }, [&]{ return D("around vertex ")+str(i); } ); }
		}
	} } }
	return finish();
}
