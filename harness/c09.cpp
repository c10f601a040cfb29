// C09: intersections with circles
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;

struct DP { double x,y; };
// must: points that have to be found; may: tangency points (0, 1 or 2 occurrences are all legal there)
struct Exp { std::vector<DP> must, may; };
static void addSeg( Exp& e, const IP& a, const IP& b, const IP& c, ll r2 )
{
	ll L2=d2(a,b), bb=(a.x-c.x)*(b.x-a.x)+(a.y-c.y)*(b.y-a.y), ca=d2(a,c)-r2, cb=d2(b,c)-r2, disc=bb*bb-L2*ca;
	auto at=[&]( double t ){ return DP{ a.x+t*(b.x-a.x), a.y+t*(b.y-a.y) }; };
	if( disc<0 ) return;
	if( disc==0 )
	{
		if( ca==0 ) { e.must.push_back(at(0)); return; }
		if( cb==0 ) { e.must.push_back(at(1)); return; }
		if( -bb>0 && -bb<L2 ) e.may.push_back( at( -double(bb)/L2 ) );
		return;
	}
	double t1=(-bb-std::sqrt((double)disc))/L2, t2=(-bb+std::sqrt((double)disc))/L2;
	if( ca==0 && cb==0 ) { e.must.push_back(at(0)); e.must.push_back(at(1)); return; }
	if( ca==0 ) { e.must.push_back(at(0)); if( bb<0 && cb>0 ) e.must.push_back(at(t2)); return; }
	if( cb==0 ) { e.must.push_back(at(1)); if( -bb<L2 && ca>0 ) e.must.push_back(at(t1)); return; }
	if( ca<0 && cb<0 ) return;
	if( ca<0 ) { e.must.push_back(at(t2)); return; }
	if( cb<0 ) { e.must.push_back(at(t1)); return; }
	if( -bb>0 && -bb<L2 ) { e.must.push_back(at(t1)); e.must.push_back(at(t2)); }
}
static Exp lineExp( const IP& a, const IP& b, const IP& c, ll r2 )
{
	Exp e; ll L2=d2(a,b), bb=(a.x-c.x)*(b.x-a.x)+(a.y-c.y)*(b.y-a.y), ca=d2(a,c)-r2, disc=bb*bb-L2*ca;
	auto at=[&]( double t ){ return DP{ a.x+t*(b.x-a.x), a.y+t*(b.y-a.y) }; };
	if( disc==0 ) e.may.push_back( at(-double(bb)/L2) );
	if( disc>0 ) { e.must.push_back(at((-bb-std::sqrt((double)disc))/L2)); e.must.push_back(at((-bb+std::sqrt((double)disc))/L2)); }
	return e;
}
static void dedup( std::vector<DP>& v ) { std::vector<DP> o; for( auto& p: v ) { bool d=false; for( auto& q: o ) if( std::fabs(p.x-q.x)<1e-7 && std::fabs(p.y-q.y)<1e-7 ) d=true; if(!d) o.push_back(p); } v=o; }

template<class P>
std::string show( const std::vector<P>& v ) { std::string s; for( auto& p: v ) s+=str(p); return s; }
// got: list of points; exactly the must ones (as a multiset), the others being tangency points
template<class P>
void compare( const std::vector<P>& got, const Exp& ex, const Emb& e, double tol, const char* what, bool unique )
{
	std::vector<char> used( ex.must.size(),0 ); std::vector<int> mayN( ex.may.size(),0 ); bool ok=true; std::string why;
	for( auto& g: got )
	{
		double x=g.getX(), y=g.getY(); bool f=false;
		if( !std::isfinite(x)||!std::isfinite(y) ) { ok=false; why="not finite"; break; }
		for( size_t i=0;i<used.size() && !f;i++ ) if( !used[i] && std::fabs(x-e.X(ex.must[i].x,ex.must[i].y))<=tol && std::fabs(y-e.Y(ex.must[i].x,ex.must[i].y))<=tol ) { used[i]=1; f=true; }
		double mt=std::max({tol*10,3e-6*e.s,std::fabs(e.tx)*1e-9});
		for( size_t i=0;i<mayN.size() && !f;i++ ) if( std::fabs(x-e.X(ex.may[i].x,ex.may[i].y))<=mt && std::fabs(y-e.Y(ex.may[i].x,ex.may[i].y))<=mt ) { f=true; if( ++mayN[i]>2 ) f=false; }
		if( !f ) { ok=false; why=str("not expected: ",g); }
	}
	for( size_t i=0;i<used.size();i++ ) if( !used[i] && ok ) { ok=false; why=str("missing ",e.X(ex.must[i].x,ex.must[i].y),",",e.Y(ex.must[i].x,ex.must[i].y)); }
	check( ok, what, [&]{ return why+" ; got "+show(got); } );
	if( unique ) for( size_t i=1;i<got.size();i++ ) check( got[i-1]<got[i], "sorted-unique", [&]{ return show(got); } );
}
template<class A,class B>
void both( const A& a, const B& b, const Exp& ex, const Emb& e, double tol, const char* what, bool unique )
{
	step(2);
	auto r=a.intersects(b); auto q=b.intersects(a);
	check( r()==(r.size()>0) && q()==(q.size()>0), "size" );
	auto v=r.get(), w=q.get();
	compare( v, ex, e, tol, what, unique ); compare( w, ex, e, tol, what, unique );
	if( ex.may.empty() ) check( v.size()==w.size(), "symmetric", [&]{ return str(what,": ",v.size()," / ",w.size()); } );
	for( size_t i=1;i<v.size();i++ ) check( !(v[i]<v[i-1]), "order" );
}
template<class R>
void asLine( const R& r, const Exp& ex, const Emb& e, double tol, const char* what )
{
	if( !r() ) { check( ex.must.empty(), what, "no intersection reported" ); check( thrown([&]{ r.get(); })==1, "get-throw" ); check( r.size()==0, "size" ); return; }
	check( r.size()==2, "size" );
	auto p=r.get(); typedef std::decay_t<decltype(p.first)> P;
	compare( std::vector<P>{p.first,p.second}, ex, e, tol, what, false );
	if( !ex.must.empty() ) check( p.first<p.second, "ordered", [&]{ return str(what," ",p.first,p.second); } );
}
template<class T>
void lineSeg( const IP& a, const IP& b, const IP& c, ll r2, const Emb& e )
{
	T r=(T)(std::sqrt((double)r2)*e.s);
	if( sizeof(T)>8 ) r=(T)std::sqrt((LD)r2)*(T)e.s;
	auto P=[&]( const IP& p ){ return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); };
	Circle_<T> ci( P(c), r ); double tol=1e-8*std::max(1.,e.s);
	Line2d_<T> l( P(a), P(b) ); Exp le=lineExp(a,b,c,r2);
	step(5);
	asLine( l.intersects(ci), le, e, tol, "line/circle" ); asLine( ci.intersects(l), le, e, tol, "circle/line" );
	asLine( l.intersects(P(c),r), le, e, tol, "line/center,radius" );
	Exp se; addSeg( se,a,b,c,r2 );
	both( Segment_<T>(P(a),P(b)), ci, se, e, tol, "segment/circle", true ); both( OSegment_<T>(P(a),P(b)), ci, se, e, tol, "osegment/circle", true ); both( OSegment_<T>(P(b),P(a)), ci, se, e, tol, "osegment/circle", true );
	outcome( mix( le.must.size()*8+le.may.size()*4+se.must.size(), se.must.empty()?0:hd(se.must[0].x*31+se.must[0].y) ) );
}
// line given by homogeneous coefficients, any sign
static void rawLine( ll A, ll B, ll C, ll k, const IP& c, ll r2 )
{
	Line2d_<double> l( double(k*A), double(k*B), double(k*C) ); Circle_<double> ci( Point2d_<double>(c.x,c.y), std::sqrt((double)r2) );
	ll v=A*c.x+B*c.y+C, n=A*A+B*B, disc=r2*n-v*v; Exp ex; double mx=c.x-double(A*v)/n, my=c.y-double(B*v)/n;
	if( disc==0 ) ex.may.push_back({mx,my});
	if( disc>0 ) { double h=std::sqrt((double)disc)/n; ex.must={ {mx+h*B,my-h*A},{mx-h*B,my+h*A} }; }
	step(3);
	asLine( l.intersects(ci), ex, embeddings()[0], 1e-9, "raw line/circle" ); asLine( ci.intersects(l), ex, embeddings()[0], 1e-9, "circle/raw line" );
	outcome( mix(hd(mx),disc) );
}
template<class T,class U>
void circles( const IP& c1, ll q1, const IP& c2, ll q2, const Emb& e, double tol, bool intR )
{
	// d² against (r1±r2)²: compare m=d²-q1-q2 with ±2 r1 r2
	ll D=d2(c1,c2), m=D-q1-q2; i128 m2=(i128)m*m, p=(i128)4*q1*q2;
	Exp ex; bool tangent=false;
	if( D==0 ) {}
	else if( m2==p ) { tangent=true; double a=double(q1-q2+D)/2/D; ex.may.push_back({ c1.x+a*(c2.x-c1.x), c1.y+a*(c2.y-c1.y) }); }
	else if( m2<p )
	{
		double a=double(q1-q2+D)/2/D, h=std::sqrt( (double)(4*(i128)q1*D-(i128)(q1-q2+D)*(q1-q2+D)) )/2/D;
		double x=c1.x+a*(c2.x-c1.x), y=c1.y+a*(c2.y-c1.y);
		ex.must={ {x+h*(c2.y-c1.y),y-h*(c2.x-c1.x)},{x-h*(c2.y-c1.y),y+h*(c2.x-c1.x)} };
	}
	auto R=[&]( ll q ){ return std::sqrt((LD)q)*(LD)e.s; };
	Circle_<T> a( Point2d_<T>((T)e.X(c1.x,c1.y),(T)e.Y(c1.x,c1.y)), (T)R(q1) ); Circle_<U> b( Point2d_<U>((U)e.X(c2.x,c2.y),(U)e.Y(c2.x,c2.y)), (U)R(q2) );
	both( a, b, ex, e, tol, "circle/circle", true );
	if( tangent && intR && e.exact && D==(ll)std::llround(std::sqrt((double)D))*(ll)std::llround(std::sqrt((double)D)) ) check( a.intersects(b).size()==1, "tangent-circles", [&]{ return str( a.intersects(b).size() ); } );
	outcome( mix( ex.must.size()+4*ex.may.size(), ex.must.empty()?m:hd(ex.must[0].x+7*ex.must[0].y) ) );
}
template<class T>
void rect( const IP& a, const IP& b, const IP& c, ll r2, const Emb& e )
{
	auto P=[&]( const IP& p ){ return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); };
	std::vector<IP> q{ a,{a.x,b.y},b,{b.x,a.y} }; Exp ex; for( int i=0;i<4;i++ ) addSeg( ex,q[i],q[(i+1)%4],c,r2 );
	Exp pe=ex; dedup( ex.must ); dedup( ex.may );
	Circle_<T> ci( P(c),(T)(std::sqrt((double)r2)*e.s) ); FRect_<T> r( P(a),P(b) );
	double tol=1e-8*std::max(1.,e.s);
	both( r, ci, ex, e, tol, "rect/circle", true );
	both( CPolyline_<T>(r), ci, pe, e, tol, "rect polygon/circle", false );
	outcome( mix(ex.must.size()*16+ex.may.size(),hd(ex.must.empty()?0:ex.must.back().x)) );
}
template<class T>
void poly( const Poly& p, const IP& c, ll r2, const Emb& e )
{
	auto P=[&]( const IP& q ){ return Point2d_<T>((T)e.X(q.x,q.y),(T)e.Y(q.x,q.y)); };
	std::vector<Point2d_<T>> v; for( auto& q: p ) v.push_back(P(q));
	Circle_<T> ci( P(c),(T)(std::sqrt((double)r2)*e.s) ); double tol=1e-8*std::max(1.,e.s);
	Exp o; for( size_t i=0;i+1<p.size();i++ ) addSeg( o,p[i],p[i+1],c,r2 );
	both( OPolyline_<T>(v), ci, o, e, tol, "open/circle", false );
	if( p.size()>2 ) { addSeg( o,p.back(),p[0],c,r2 ); both( CPolyline_<T>(v), ci, o, e, tol, "closed/circle", false ); }
	outcome( mix(o.must.size(),hd(o.must.empty()?0:o.must.back().x+3*o.must.back().y)) );
}
int main( int argc, char** argv )
{
	init( argc, argv );
	auto E=withFar(rounded()); bool th=thorough(); const auto S=tilted(E);
	// an end on the circle can't be decided far away when the radius is irrational
	auto dec=[]( const Emb& e, ll r ){ ll k=std::llround(std::sqrt((double)r)); return k*k==r || e.s!=8388617.; };
	auto g=grid(0,0,4,4); auto h=grid(0,0,3,3);
	std::vector<IP> cs{ {2,2},{0,0},{1,3},{5,1},{-1,2} }; if( th ) cs=grid(-1,-1,5,5);
	std::vector<ll> rs{1,2,4,5,9,25}; if( th ) rs={1,2,4,5,8,9,10,16,25};
	section("line-segment");
	for( auto& e: S ) for( auto& c: cs ) for( ll r: rs ) for( auto& a: g ) for( auto& b: g ) if( a<b && dec(e,r) )
		run( [&]{ lineSeg<double>(a,b,c,r,e); }, [&]{ return str(a,b," circle ",c," r2=",r," emb=",e.name); } );
	section("long-double");
	for( int i: {0,1,3} ) for( ll r: rs ) for( auto& a: g ) for( auto& b: g ) if( a<b )
		run( [&]{ lineSeg<LD>(a,b,{2,1},r,E[i]); }, [&]{ return str(a,b," circle (2,1) r2=",r," emb=",E[i].name); } );
	section("raw-lines");
	for( ll A=-3;A<=3;A++ ) for( ll B=-3;B<=3;B++ ) if( A||B ) for( ll C=-6;C<=6;C++ ) for( ll k: {1,-1,7} ) for( ll r: {1,2,5,9} ) for( IP c: { IP{0,0},IP{1,-2},IP{3,1} } )
		run( [&]{ rawLine(A,B,C,k,c,r); }, [&]{ return str("line ",A*k,",",B*k,",",C*k," circle ",c," r2=",r); } );
	section("circles");
	for( auto& e: S ) for( auto& c: grid(-4,-4,4,4) ) for( ll q1: rs ) for( ll q2: rs )
		run( [&]{ auto sq=[]( ll q ){ ll k=std::llround(std::sqrt((double)q)); return k*k==q; }; circles<double,double>({1,0},q1,c,q2,e,1e-8*std::max(1.,e.s),sq(q1)&&sq(q2)); },
		     [&]{ return str("circles (1,0) r2=",q1," ",c," r2=",q2," emb=",e.name); } );
	section("circle-types");
	for( auto& c: grid(-4,-4,4,4) ) for( ll q1: {1,4,9} ) for( ll q2: {1,4,9} )
		run( [&]{ circles<float,float>({1,0},q1,c,q2,E[0],1e-4,true); circles<LD,LD>({1,0},q1,c,q2,E[1],1e-8,true); circles<float,double>({1,0},q1,c,q2,E[0],1e-4,true); circles<double,LD>({1,0},q1,c,q2,E[0],1e-7,true); },
		     [&]{ return str("types: circles (1,0) r2=",q1," ",c," r2=",q2); } );
	section("rectangles");
	for( auto& e: E ) for( auto& c: cs ) for( ll r: rs ) for( auto& a: h ) for( auto& b: h ) if( a.x<b.x && a.y<b.y && dec(e,r) )
		run( [&]{ rect<double>(a,b,c,r,e); }, [&]{ return str("rect ",a,b," circle ",c," r2=",r," emb=",e.name); } );
	section("polylines");
	auto k=th?grid(0,0,3,2):grid(0,0,2,2);
	for( int ei: {0,2,3,6,7,8,10} ) for( size_t n: {2,3,4} ) sequences( k,n,true,false,[&]( const Poly& p )
	{
		for( IP c: { IP{1,1},IP{0,2} } ) for( ll r: {1,2,4} )
			run( [&]{ poly<double>(p,c,r,S[ei]); }, [&]{ return str("poly ",p," circle ",c," r2=",r," emb=",S[ei].name); } );
	} );
	section("long-polylines");
	for( int n: bigSizes() ) { int id=0; for( auto& p: big(n) ) { id++; for( int ei: {0,3} ) for( size_t k: {0,5,n-1,n+3} ) for( auto& c: listing(p,k%(2*p.size())) ) for( ll r: {1,2,9} )
		run( [&]{ poly<double>(listing(p,k%(2*p.size())),c,r,S[ei]); }, [&]{ return str("poly ",n," shape ",id," listing ",k," circle ",c," r2=",r," emb=",S[ei].name); } ); } }
	return finish();
}
