// C10: rectangle and polyline intersections
#include "geo.hpp"
#include "homog2d.hpp"
using namespace geo; using namespace mc; using namespace h2d;
typedef long double LD;

typedef std::pair<Q,Q> QP;
typedef std::vector<std::pair<IP,IP>> Edges;
static Edges edges( const Poly& p, bool closed ) { Edges e; for( size_t i=0;i+1<p.size();i++ ) e.push_back({p[i],p[i+1]}); if( closed && p.size()>2 ) e.push_back({p.back(),p[0]}); return e; }
static Edges rectEdges( const IP& a, const IP& b ) { return edges( Poly{a,{a.x,b.y},b,{b.x,a.y}}, true ); }
static bool in01( const Q& q ) { return q>=Q(0)&&q<=Q(1); }
// points where the supports (line) or the segments meet
static void meet( std::set<QP>& out, const IP& a, const IP& b, bool line, const IP& c, const IP& d )
{
	ll w=(b.x-a.x)*(d.y-c.y)-(b.y-a.y)*(d.x-c.x);
	if( !w ) return;
	Q u=Q::of((c.x-a.x)*(d.y-c.y)-(c.y-a.y)*(d.x-c.x),w), v=Q::of((c.x-a.x)*(b.y-a.y)-(c.y-a.y)*(b.x-a.x),w);
	if( in01(v) && (line||in01(u)) ) out.insert({ Q(a.x)+u*Q(b.x-a.x), Q(a.y)+u*Q(b.y-a.y) });
}
static std::set<QP> meetAll( const Edges& A, const Edges& B ) { std::set<QP> s; for( auto& a: A ) for( auto& b: B ) meet( s,a.first,a.second,false,b.first,b.second ); return s; }
template<class P> std::string show( const std::vector<P>& v ) { std::string s; for( auto& p: v ) s+=str(p); return s; }

template<class V>
void cmp( const V& v, const std::set<QP>& ex, const Emb& e, double tol, bool unique, const char* what )
{
	std::vector<std::pair<double,double>> w; for( auto& q: ex ) w.push_back({ e.X(q.first.v(),q.second.v()), e.Y(q.first.v(),q.second.v()) });
	std::vector<int> n(w.size(),0); bool ok=true; std::string why;
	for( auto& p: v )
	{
		bool f=false; for( size_t i=0;i<w.size();i++ ) if( std::fabs((double)p.getX()-w[i].first)<=tol && std::fabs((double)p.getY()-w[i].second)<=tol ) { f=true; n[i]++; }
		if( !f ) { ok=false; why=str("not expected ",p); }
	}
	for( size_t i=0;i<n.size();i++ ) if( !n[i] ) { ok=false; why=str("missing ",w[i].first,",",w[i].second); }
	check( ok, what, [&]{ return why+" ; got "+show(v); } );
	if( unique && ok ) check( v.size()==w.size(), "duplicates", [&]{ return str(what,": ",show(v)); } );
	for( size_t i=1;i<v.size();i++ ) { bool s=!( v[i].getX()<v[i-1].getX() ) && !( v[i].getX()==v[i-1].getX() && v[i].getY()<v[i-1].getY() ); check( s, "sorted", [&]{ return show(v); } ); }
}
template<class A,class B>
void both( const A& a, const B& b, const std::set<QP>& ex, const Emb& e, bool unique, const char* what )
{
	step(2); double tol=1e-9*std::max({1.,std::fabs(e.tx),std::fabs(e.ty),e.s*10});
	if( sizeof(a.length())<8 ) tol=1e-4;
	auto r=a.intersects(b); auto q=b.intersects(a);
	check( r()==!ex.empty() && q()==!ex.empty(), "intersects", [&]{ return str(what,": ",r(),q()," expected ",!ex.empty()); } );
	check( r()==(r.size()>0) && q()==(q.size()>0), "size" );
	auto v=r.get(); auto w=q.get(); check( v.size()==r.size() && w.size()==q.size(), "size" );
	cmp( v, ex, e, tol, unique, what ); cmp( w, ex, e, tol, unique, what );
	auto v2=r.get(); check( v2.size()==v.size() && (v.empty()||v2.back()==v.back()), "get-again" );
}
static uint64_t oh( const std::set<QP>& s ) { uint64_t h=s.size(); for( auto& q: s ) h=mix(h,mix(hd(q.first.v()),hd(q.second.v()))); return h; }
template<class T> auto PT( const Emb& e ) { return [&e]( const IP& p ){ return Point2d_<T>((T)e.X(p.x,p.y),(T)e.Y(p.x,p.y)); }; }
template<class T>
void rectLine( const IP& a, const IP& b, const IP& c, const IP& d, const Emb& e )
{
	auto P=PT<T>(e); FRect_<T> r(P(a),P(b)); CPolyline_<T> cp(r); std::set<QP> ls, ss; for( auto& g: rectEdges(a,b) ) { meet(ls,c,d,true,g.first,g.second); meet(ss,c,d,false,g.first,g.second); }
	Line2d_<T> l(P(c),P(d)); Segment_<T> s(P(c),P(d)); OSegment_<T> o1(P(c),P(d)), o2(P(d),P(c)); step();
	auto tolv=1e-9*std::max({1.,std::fabs(e.tx),std::fabs(e.ty),e.s*10});
	both( r, l, ls, e, true, "rect/line" ); cmp( l.intersects(P(a),P(b)).get(), ls, e, tolv, true, "line/two corners" ); both( cp, l, ls, e, false, "rect polygon/line" );
	both( r, s, ss, e, true, "rect/segment" ); both( r, o1, ss, e, true, "rect/osegment" ); both( r, o2, ss, e, true, "rect/osegment" ); both( cp, s, ss, e, false, "rect polygon/segment" );
	outcome( mix(oh(ls),oh(ss)) );
}
template<class T,class U>
void rectRect( const IP& a, const IP& b, const IP& c, const IP& d, const Emb& e )
{
	auto P=PT<T>(e); auto R=PT<U>(e); FRect_<T> r(P(a),P(b)); FRect_<U> s(R(c),R(d)); auto ex=meetAll(rectEdges(a,b),rectEdges(c,d));
	if( a==c && b==d ) { step(2); check( !r.intersects(s)() && !s.intersects(r)(), "same-rect" ); outcome(1); }
	else both( r, s, ex, e, true, "rect/rect" );
	both( CPolyline_<T>(r), s, ex, e, false, "rect polygon/rect" ); both( CPolyline_<T>(r), CPolyline_<U>(s), ex, e, false, "polygon/polygon" );
	outcome( oh(ex) );
}
template<class T>
void polyOne( const Poly& p, const IP& c, const IP& d, const Emb& e )
{
	auto P=PT<T>(e); std::vector<Point2d_<T>> v; for( auto& q: p ) v.push_back(P(q));
	OPolyline_<T> o(v); std::set<QP> ls,ss; for( auto& g: edges(p,false) ) { meet(ls,c,d,true,g.first,g.second); meet(ss,c,d,false,g.first,g.second); }
	Line2d_<T> l(P(c),P(d)); Segment_<T> s(P(d),P(c)); OSegment_<T> os(P(d),P(c));
	bool ln=true; if( e.s>1e5 ) for( auto& q: p ) if( cross(c,d,q)==0 ) ln=false;     // a line through a vertex is not decided at that scale
	if( ln ) both( o, l, ls, e, false, "open/line" ); both( o, s, ss, e, false, "open/segment" ); both( o, os, ss, e, false, "open/osegment" );
	if( p.size()>2 ) { CPolyline_<T> k(v); for( auto& g: edges(p,true) ) { meet(ls,c,d,true,g.first,g.second); meet(ss,c,d,false,g.first,g.second); }
		if( ln ) both( k, l, ls, e, false, "closed/line" ); both( k, s, ss, e, false, "closed/segment" ); both( k, os, ss, e, false, "closed/osegment" ); }
	if( c.x<d.x && c.y<d.y && e.m00==1 && e.m01==0 && e.m10==0 ) { FRect_<T> r(P(c),P(d)); auto ex=meetAll(edges(p,false),rectEdges(c,d)); both( o, r, ex, e, false, "open/rect" ); if( p.size()>2 ) both( CPolyline_<T>(v), r, meetAll(edges(p,true),rectEdges(c,d)), e, false, "closed/rect" ); }
	outcome( mix(oh(ls),oh(ss)) );
}
template<class T,class U>
void polyPoly( const Poly& p, const Poly& q, const Emb& e )
{
	auto P=PT<T>(e); auto R=PT<U>(e); std::vector<Point2d_<T>> v; for( auto& k: p ) v.push_back(P(k)); std::vector<Point2d_<U>> w; for( auto& k: q ) w.push_back(R(k));
	OPolyline_<T> o(v); OPolyline_<U> o2(w); auto ex=meetAll(edges(p,false),edges(q,false));
	both( o,o2,ex,e,false,"open/open" ); outcome( oh(ex) );
	if( q.size()>2 ) { CPolyline_<U> k2(w); both( o,k2,meetAll(edges(p,false),edges(q,true)),e,false,"open/closed" ); 
		if( p.size()>2 ) { CPolyline_<T> k(v); auto x=meetAll(edges(p,true),edges(q,true)); both( k,k2,x,e,false,"closed/closed" ); outcome( oh(x) ); } }
}
int main( int argc, char** argv )
{
	init( argc, argv );
	std::vector<Emb> E=withFar(moderate()); const auto S=withFar(skewed()); bool th=thorough();
	auto g4=grid(0,0,3,3), g5=grid(-1,-1,4,4), g3=grid(0,0,2,2);
	section("rect-line-segment");
	for( auto& e: E ) for( IP a: g3 ) for( IP b: g4 ) if( a.x<b.x&&a.y<b.y ) for( auto& c: g5 ) for( auto& d: g5 ) if( c<d )
		run( [&]{ rectLine<double>(a,b,c,d,e); }, [&]{ return str("rect ",a,b," with ",c,d," emb=",e.name); } );
	const Emb huge=embeddings()[2];              // lines through a corner are not decided there
	for( IP a: g3 ) for( IP b: g4 ) if( a.x<b.x&&a.y<b.y ) for( auto& c: g5 ) for( auto& d: g5 ) if( c<d && cross(c,d,a)&&cross(c,d,b)&&cross(c,d,IP{a.x,b.y})&&cross(c,d,IP{b.x,a.y}) )
		run( [&]{ rectLine<double>(a,b,c,d,huge); }, [&]{ return str("rect ",a,b," with ",c,d," emb=",huge.name); } );
	E.push_back(huge);
	section("rect-rect");
	for( auto& e: E ) for( IP a: g4 ) for( IP b: g4 ) if( a.x<b.x&&a.y<b.y ) for( IP c: g5 ) for( IP d: g5 ) if( c.x<d.x&&c.y<d.y )
		run( [&]{ rectRect<double,double>(a,b,c,d,e); }, [&]{ return str("rect ",a,b," rect ",c,d," emb=",e.name); } );
	const Emb odd{ 1/3., 1/7., -5/11., false, false, "thirds" };
	for( auto& e: {odd} ) for( IP a: g4 ) for( IP b: g4 ) if( a.x<b.x&&a.y<b.y ) for( IP c: g4 ) for( IP d: g4 ) if( c.x<d.x&&c.y<d.y )
		run( [&]{ rectRect<double,double>(a,b,c,d,e); }, [&]{ return str("rect ",a,b," rect ",c,d," emb=",e.name); } );
	section("types");
	for( IP a: g4 ) for( IP b: g4 ) if( a.x<b.x&&a.y<b.y ) for( IP c: g4 ) for( IP d: g4 ) if( c.x<d.x&&c.y<d.y )
		run( [&]{ rectRect<float,float>(a,b,c,d,E[0]); rectRect<LD,LD>(a,b,c,d,E[1]); rectRect<double,LD>(a,b,c,d,E[0]); rectRect<float,double>(a,b,c,d,E[0]); rectLine<LD>(a,b,c,d,E[3]); }, [&]{ return str("types: rect ",a,b," rect ",c,d); } );
	section("polyline");
	for( int ei: {0,2,3,5,6,8,9,12} ) for( size_t n: {2,3,4} ) sequences( g3,n,true,false,[&]( const Poly& p )
	{
		if( n==4 && p[0]<p[3] ) return;                          // open chains: one direction
		for( auto& c: g3 ) for( auto& d: g3 ) if( c<d && (th || n<4 || ((c.x+c.y+d.x*2+d.y)%3==0)) )
			run( [&]{ polyOne<double>(p,c,d,S[ei]); }, [&]{ return str("poly ",p," with ",c,d," emb=",S[ei].name); } );
	} );
	section("polyline-pairs");
	std::vector<Poly> tri; sequences( g3,3,true,true,[&]( const Poly& p ){ tri.push_back(p); } );
	std::vector<Poly> quad; sequences( g3,4,true,true,[&]( const Poly& p ){ if( isSimple(p) ) quad.push_back(p); } );
	for( int ei: {0,3,6,7,9,11,12} ) for( auto& p: tri ) for( auto& q: tri ) run( [&]{ polyPoly<double,double>(p,q,S[ei]); }, [&]{ return str("poly ",p," / ",q," emb=",S[ei].name); } );
	for( auto& p: tri ) for( auto& q: quad ) run( [&]{ polyPoly<double,LD>(p,q,E[1]); }, [&]{ return str("poly ",p," / quad ",q," emb=small, double/long double"); } );
	if( th ) for( auto& p: quad ) for( auto& q: quad ) run( [&]{ polyPoly<double,double>(p,q,E[4]); }, [&]{ return str("quad ",p," / ",q," emb=",E[4].name); } );
	section("long-polylines");
	for( int n: bigSizes() ) { int id=0; for( auto& p: big(n) ) { id++; for( int ei: {0,3} ) for( size_t k: {0,5,n-1,n+3} )
	{
		const Poly q=listing(p,k%(2*p.size())); const Emb& e=S[ei]; IP lo=q[0],hi=q[0]; for( auto& v: q ) { lo.x=std::min(lo.x,v.x); lo.y=std::min(lo.y,v.y); hi.x=std::max(hi.x,v.x); hi.y=std::max(hi.y,v.y); }
		auto D=[&]( const char* w ){ return str(w,' ',n," shape ",id," listing ",k," emb=",e.name); };
		for( auto cd: std::vector<std::pair<IP,IP>>{ {{lo.x-1,lo.y+1},{hi.x+1,lo.y+1}}, {{lo.x-1,lo.y+1},{hi.x+1,hi.y-1}}, {{lo.x+1,lo.y-1},{lo.x+1,hi.y+1}}, {{hi.x-1,lo.y-1},{hi.x-1,hi.y+1}}, {{lo.x,lo.y},{hi.x,hi.y}}, {{lo.x-1,(lo.y+hi.y)/2},{hi.x+1,(lo.y+hi.y)/2}} } )
			run( [&]{ polyOne<double>(q,cd.first,cd.second,e); }, [&]{ return D("line")+str(cd.first,cd.second); } );
		for( auto& p2: big(9) ) { run( [&]{ polyPoly<double,double>(q,p2,e); }, [&]{ return D("polyline"); } ); run( [&]{ polyPoly<double,double>(p2,q,e); }, [&]{ return D("polyline, reversed"); } ); }
	} } }
	return finish();
}
