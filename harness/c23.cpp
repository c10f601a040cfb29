// C23: translate, moveTo, rotate act as plane motions on every type, in every short sequence.
// Reference: the list of the vertices (exact integers), moved by the plane motion.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly; using namespace h2d;

enum Shape { SPoint, SSeg, SOSeg, SCirc, SRect, SCPol, SOPol, SLine };
struct Sh { Shape k; Poly p; double r; };
static IP rot( IP p, IP c, int m )
{
	ll x=p.x-c.x, y=p.y-c.y;
	switch( m ) { case 0: return {c.x-y,c.y+x}; case 1: return {c.x+y,c.y-x}; case 2: return {c.x-x,c.y-y}; case 3: return {c.x-x,c.y+y}; default: return {c.x+x,c.y-y}; }
}
static const Rotate RR[]={Rotate::CCW,Rotate::CW,Rotate::Full,Rotate::VMirror,Rotate::HMirror};

/// coordinates: integer * s (both axes, no translation so that rotations stay inside the grid)
template<class T> struct Env
{
	double s; bool exact; const char* name;
	T c( ll v ) const { return (T)(v*s); }
	Point2d_<T> P( IP q ) const { return Point2d_<T>( c(q.x), c(q.y) ); }
	double tol() const { return exact?0:( sizeof(T)==4?1e-5:2e-13 )*60*s; }
	bool eq( double a, double b ) const { return exact ? a==b : near(a,b,tol()); }
};
template<class T> std::vector<Point2d_<T>> vec( const Env<T>& v, const Poly& p ) { std::vector<Point2d_<T>> o; for( auto& q: p ) o.push_back(v.P(q)); return o; }
template<class P> bool at( const P& p, IP q, auto& v ) { return v.eq(p.getX(),(double)v.c(q.x)) && v.eq(p.getY(),(double)v.c(q.y)); }

// ---- the operations. Indices:
// 0-3 translate (int, pair, float/double, free), 4-6 moveTo (values, point, free), 7-11 rotate about the origin, 12-16 about (3,-1), 17-21 about own vertex 0 (reference into the object when there is one), 22.. free versions
static const int NT=7, NOPS=7+5+5+5+5;
struct Op { int k; IP d; int m; IP c; bool own=false, free=false; };
static Op op( int o )
{
	switch( o ) { case 0: return {0,{2,-1}}; case 1: return {1,{-3,4}}; case 2: return {2,{5,0}}; case 3: return {3,{-2,1}}; case 4: return {4,{0,0}}; case 5: return {5,{-4,3}}; case 6: return {6,{1,7}}; }
	o-=7; Op r; r.k=7; r.m=o%5; r.c={0,0};
	if( o/5==1 ) r.c={3,-1}; if( o/5==2 ) r.own=true; if( o/5==3 ) { r.c={-2,5}; r.free=true; }
	return r;
}
template<class T,class O> void applyT( O& ob, const Op& o, const Env<T>& v )
{
	T dx=v.c(o.d.x), dy=v.c(o.d.y);
	switch( o.k )
	{
		case 0: if( v.exact && v.s==1 ) ob.translate( (int)o.d.x, (int)o.d.y ); else ob.translate( dx, dy ); break;
		case 1: ob.translate( std::make_pair(dx,dy) ); break;
		case 2: ob.translate( (long double)dx, dy ); break;
		case 3: if( o.d.x<0 ) translate( ob, dx, dy ); else translate( ob, std::make_pair(dx,dy) ); break;
		case 4: if constexpr( !std::is_same_v<O,Point2d_<T>> ) ob.moveTo( dx, dy ); else ob.moveTo( Point2d_<T>(dx,dy) ); break;
		case 5: ob.moveTo( Point2d_<double>(dx,dy) ); break;
		case 6: moveTo( ob, Point2d_<T>(dx,dy) ); break;
	}
}
template<class T,class O> void applyR( O& ob, const Op& o, const Env<T>& v, IP own )
{
	bool origin=o.c==IP{0,0} && !o.own;
	if( o.own )
	{
		if constexpr( std::is_same_v<O,FRect_<T>> ) { if( o.m%2 ) ob.rotate( RR[o.m], ob.getPts().first ); else ob.rotate( RR[o.m], v.P(own) ); }
		else { if( o.m%2 ) ob.rotate( RR[o.m], ob.getPoint(0) ); else ob.rotate( RR[o.m], ob.getPts()[0] ); }
	}
	else if( o.free ) { if( origin ) rotate( ob, RR[o.m] ); else rotate( ob, RR[o.m], v.P(o.c) ); }
	else { if( origin ) ob.rotate( RR[o.m] ); else ob.rotate( RR[o.m], Point2d_<long double>( v.P(o.c) ) ); }
}
/// moves the reference
static void ref( Sh& s, const Op& o )
{
	if( o.k<=3 ) { for( auto& q: s.p ) { q.x+=o.d.x; q.y+=o.d.y; } return; }
	if( o.k<=6 ) { IP b=s.p[0]; for( auto& q: s.p ) { q.x+=o.d.x-b.x; q.y+=o.d.y-b.y; } return; }
	IP c=o.own?s.p[0]:o.c; for( auto& q: s.p ) q=rot(q,c,o.m);
	if( s.k==SRect ) s.p={ {std::min(s.p[0].x,s.p[1].x),std::min(s.p[0].y,s.p[1].y)}, {std::max(s.p[0].x,s.p[1].x),std::max(s.p[0].y,s.p[1].y)} };
}
template<class T,class F> void make( const Sh& s, const Env<T>& v, F f )
{
	switch( s.k )
	{
		case SPoint: f( v.P(s.p[0]) ); break;
		case SSeg: f( Segment_<T>(v.P(s.p[0]),v.P(s.p[1])) ); break;
		case SOSeg: f( OSegment_<T>(v.P(s.p[0]),v.P(s.p[1])) ); break;
		case SCirc: f( Circle_<T>(v.P(s.p[0]),(T)(s.r*v.s)) ); break;
		case SRect: f( FRect_<T>(v.P(s.p[0]),v.P(s.p[1])) ); break;
		case SCPol: f( CPolyline_<T>(vec(v,s.p)) ); break;
		case SOPol: f( OPolyline_<T>(vec(v,s.p)) ); break;
		default:;
	}
}
template<class T> void history( const Sh& s0, const Env<T>& v, int depth, std::vector<int>& h )
{
	run( [&]{
		make( s0, v, [&]( auto ob ) {
			typedef decltype(ob) O;
			constexpr bool canRot = std::is_same_v<O,FRect_<T>> || std::is_same_v<O,CPolyline_<T>> || std::is_same_v<O,OPolyline_<T>>;
			Sh s=s0; double l0=0,a0=0; Type t0=ob.type(); size_t n0=ob.size();
			if( s.k!=SPoint ) { l0=ob.length(); a0=ob.area(); }
			for( size_t i=0;i<h.size();i++ )
			{
				Op o=op(h[i]); step();
				if( o.k<=6 ) applyT( ob, o, v );
				else if constexpr( canRot ) applyR( ob, o, v, s.p[0] );
				ref( s, o );
				// read everything at every step of the history when it is the last, cached values in between
				if( s.k!=SPoint ) { check( near(ob.length(),l0,1e-9+l0*(sizeof(T)==4?1e-5:1e-9)) && near(ob.area(),a0,1e-9+a0*(sizeof(T)==4?1e-5:1e-9)), "measures", [&]{ return str("length ",ob.length()," was ",l0,", area ",ob.area()," was ",a0); } ); }
				check( ob.type()==t0 && ob.size()==n0, "kind", "type or size changed" );
			}
			auto bad=[&]{ return str( ob,", expected ",s.p ); };
			if constexpr( std::is_same_v<O,Point2d_<T>> ) check( at(ob,s.p[0],v), "vertices", bad );
			else if constexpr( std::is_same_v<O,Circle_<T>> ) check( at(ob.center(),s.p[0],v) && v.eq(ob.radius(),(double)(T)(s.r*v.s)), "vertices", bad );
			else if constexpr( std::is_same_v<O,FRect_<T>> || std::is_same_v<O,Segment_<T>> || std::is_same_v<O,OSegment_<T>> )
			{ auto p=ob.getPts(); check( at(p.first,s.p[0],v) && at(p.second,s.p[1],v), "vertices", bad ); }
			else
			{
				bool ok=ob.size()==s.p.size(); for( size_t i=0;ok&&i<s.p.size();i++ ) ok=at(ob.getPoint(i),s.p[i],v);
				check( ok, "vertices", bad );
				if( s.k==SCPol && geo::isSimple(s.p) )
				{
					ll A=geo::area2(s.p), sx=0, sy=0; size_t n=s.p.size(); for( size_t i=0;i<n;i++ ) { auto& a=s.p[i]; auto& b=s.p[(i+1)%n]; ll c=a.x*b.y-b.x*a.y; sx+=(a.x+b.x)*c; sy+=(a.y+b.y)*c; }
					auto c=ob.centroid(); double k=v.s/(3.*A), tt=1e-9*v.s+ (sizeof(T)==4?1e-3*v.s:0);
					check( near(c.getX(),sx*k,tt) && near(c.getY(),sy*k,tt), "centroid", [&]{ return str(c); } );
				}
			}
			uint64_t m=0; for( auto& q: s.p ) m=mix(m,(uint64_t)(q.x*1000+q.y)); outcome( m );
		} );
	}, [&]{ std::string t=str((int)s0.k,' ',s0.p,' ',v.name,sizeof(T)==4?" float":sizeof(T)==8?"":" long"," ops"); for( int o: h ) t+=str(' ',o); return t; } );
	if( (int)h.size()<depth ) { int n=( s0.k==SRect||s0.k==SCPol||s0.k==SOPol ) ? NOPS : NT; for( int o=0;o<n;o++ ) { h.push_back(o); history(s0,v,depth,h); h.pop_back(); } }
}
template<class T> void all( const Sh& s, int depth, bool exactOnly=false )
{
	std::vector<int> h;
	for( auto& v: { Env<T>{1,true,"unit"}, Env<T>{0.25,true,"quarter"}, Env<T>{0.3,false,"decimal"}, Env<T>{1234.567,false,"large"} } ) if( v.exact || !exactOnly ) history( s, v, depth, h );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	bool th=thorough();
	std::vector<Sh> small{ {SPoint,{{1,2}}}, {SSeg,{{0,0},{2,1}}}, {SSeg,{{-1,2},{-1,4}}}, {SSeg,{{-3,1},{2,1}}}, {SSeg,{{-1,3},{2,-2}}}, {SOSeg,{{2,1},{0,0}}}, {SOSeg,{{0,3},{1,1}}}, {SOSeg,{{-1,1},{-1,-4}}}, {SCirc,{{2,-1}},3} };
	std::vector<Sh> big{ {SRect,{{0,0},{3,1}}}, {SRect,{{-2,1},{-1,4}}}, {SCPol,{{0,0},{3,1},{1,2}}}, {SCPol,{{2,0},{0,1},{-1,-3},{4,-2}}}, {SOPol,{{1,1},{2,3}}}, {SOPol,{{0,0},{2,0},{2,1},{-1,3}}} };
	section( "translations" ); for( auto& s: small ) { all<double>(s,th?6:5); all<float>(s,3); all<long double>(s,3); }
	section( "motions" ); for( auto& s: big ) { all<double>(s,th?4:3); all<float>(s,2); all<long double>(s,2); }
	section( "deep" ); { std::vector<int> h; Env<double> u{1,true,"unit"}; for( auto& s: { big[0], big[2], big[5] } ) if( th ) history(s,u,4,h); }
	section( "all rectangles and triangles" );
	{
		auto g=geo::grid(-1,-1,1,1);
		geo::sequences( g, 2, false, false, [&]( const Poly& p ) { if( p[0].x<p[1].x && p[0].y<p[1].y ) all<double>( {SRect,p}, 2 ); if( p[0]<p[1] ) all<double>( {SSeg,p}, 2 ); if( p[0]!=p[1] ) all<double>( {SOSeg,p}, 2 ), all<double>( {SOPol,p}, 1, true ); } );
		geo::sequences( g, 3, true, false, [&]( const Poly& p ) { all<double>( {SCPol,p}, 1, true ); all<double>( {SOPol,p}, 1, true ); } );
	}
	section( "large" );
	for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) ) { all<double>( {SCPol,p}, 1, true ); all<double>( {SOPol,p}, 1, true ); }
	section( "lines" );     // a line is left as it is by translate()
	run( [&]{ Line2d l( Point2d(0,1), Point2d(2,5) ); Line2d m(l); l.translate( 3, 4 ); check( l==m, "line", "translate() on a line" ); }, [&]{ return "line"; } );
	section( "empty" );
	run( [&]{ CPolyline c; OPolyline o; c.translate(1,2); o.translate(1,2); c.rotate(Rotate::CW); o.rotate(Rotate::VMirror); check( c.size()==0 && o.size()==0, "empty", "size" );
		check( thrown([&]{ c.moveTo(Point2d(1,2)); })==1 && thrown([&]{ o.moveTo(1,2); })==1, "empty", "moveTo on an empty polyline" ); }, [&]{ return "empty polylines"; } );
	return finish();
}
