// C14: a polyline answers from its current points only, after any history.
// Every operation sequence up to the bound is executed on a real object; the model is the plain list of points.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
typedef double T;
typedef h2d::Point2d_<T> Pt;
struct D { double x,y; };
typedef std::vector<D> Pts;

static const int NSMALL=6;
static const std::vector<Pts>& shapes()
{
	static const std::vector<Pts> s=[]{ std::vector<Pts> s{
		{ {0,0},{3,0},{3,1},{1,1},{1,3},{0,3} },          // L, simple, not convex
		{ {0,0},{2,2},{2,0},{0,2} },                      // bow tie, not simple
		{ {5,1},{4,4},{-1,3} },                           // triangle listed away from its smallest point
		{ {0,0},{1,0},{2,0},{2,2},{1,2},{0,2},{0,1} },    // square with redundant points
		{ {1,1},{2,5} },
		{} };
		for( int n: geo::bigSizes() ) for( auto& p: geo::big(n) ) { Pts q; for( size_t i=0;i<p.size();i++ ) { auto& v=p[(i+p.size()/2)%p.size()]; q.push_back( {(double)v.x,(double)v.y} ); } s.push_back(q); }
		return s; }();
	return s;
}
static std::vector<Pt> cv( const Pts& p ) { std::vector<Pt> v; for( auto& q: p ) v.emplace_back( q.x, q.y ); return v; }
static bool same( const D& a, const D& b ) { return near(a.x,b.x,1e-9) && near(a.y,b.y,1e-9); }

template<class PL> struct Sys
{
	PL obj;
	Pts m;                            // model
	PL other;                         // a second object, for assignments
	Pts mo;
};

// everything observable, computed by a const object
template<class PL>
std::vector<double> observe( const PL& p, int which=-1 )
{
	std::vector<double> r;
	auto val=[&]( int id, auto f )
	{
		if( which>=0 && which!=id ) return;
		step();
		try { f(); } catch( const std::runtime_error& ) { r.push_back( 1e300 ); }
	};
	val(0,[&]{ r.push_back( p.length() ); });
	val(1,[&]{ r.push_back( p.area() ); });
	val(2,[&]{ r.push_back( p.isSimple() ); });
	val(3,[&]{ auto c=p.centroid(); r.push_back(c.getX()); r.push_back(c.getY()); });
	val(4,[&]{ r.push_back( p.isConvex() ); });
	val(5,[&]{ auto b=p.getBB().getPts(); r.push_back(b.first.getX()); r.push_back(b.first.getY()); r.push_back(b.second.getX()); r.push_back(b.second.getY()); });
	val(6,[&]{ r.push_back( p.size() ); r.push_back( p.nbSegs() ); });
	val(7,[&]{ for( auto d: {h2d::CardDir::Top,h2d::CardDir::Bottom,h2d::CardDir::Left,h2d::CardDir::Right} ) { auto c=p.getExtremePoint(d); r.push_back(c.getX()); r.push_back(c.getY()); } });
	val(8,[&]{ double a=0; for( auto& s: p.getSegs() ) { a+=s.length(); r.push_back(s.length()); } r.push_back(a); });
	val(9,[&]{ for( auto& s: p.getOSegs() ) { auto q=s.getPts(); r.push_back(q.second.getX()-q.first.getX()); r.push_back(q.second.getY()-q.first.getY()); } });
	val(10,[&]{ for( int x=-1;x<=4;x++ ) { Pt q( x+0.35, 0.6+x*0.4 ); r.push_back( q.isInside(p) ); } });
	val(11,[&]{ h2d::Line2d_<T> li( Pt(-3.5,0.77), Pt(9,1.33) ); auto it=li.intersects(p); r.push_back( it.size() ); });
	val(12,[&]{ for( size_t i=0;i<p.size();i++ ) { r.push_back(p.getPoint(i).getX()); r.push_back(p.getPoint(i).getY()); } r.push_back(p.getSegment(0).length()); });
	return r;
}
static const int NQ=13;
static bool eqv( const std::vector<double>& a, const std::vector<double>& b ) { if( a.size()!=b.size() ) return false; for( size_t i=0;i<a.size();i++ ) if( a[i]!=b[i] && !near(a[i],b[i],1e-9) ) return false; return true; }

struct Op { const char* name; int id; };

// model list must be a listing of the object's points; the model then adopts the object's order (comparison may reorder)
template<class PL>
bool sync( const PL& o, Pts& m, bool closed )
{
	if( o.size()!=m.size() ) return false;
	size_t n=m.size(); if( n==0 ) return true;
	Pts a; for( auto& q: o.getPts() ) a.push_back( {(double)q.getX(),(double)q.getY()} );
	for( int rev=0;rev<2;rev++ )
		for( size_t k=0;k<(closed?n:1);k++ )
		{
			bool ok=true;
			for( size_t i=0;i<n && ok;i++ ) ok = same( a[i], m[ rev ? (k+n-i+n-1)%n : (i+k)%n ] );
			if( ok ) { m=a; return true; }
		}
	return false;
}

template<class PL, bool CLOSED>
void apply( Sys<PL>& s, int op )
{
	auto tr=[&]( Pts& m, double dx, double dy ) { for( auto& q: m ) { q.x+=dx; q.y+=dy; } };
	auto rot=[&]( Pts& m, int r, double cx, double cy ) { for( auto& q: m ) { double x=q.x-cx,y=q.y-cy,a,b; switch(r){case 0:a=-y;b=x;break;case 1:a=y;b=-x;break;case 2:a=-x;b=-y;break;case 3:a=-x;b=y;break;default:a=x;b=-y;} q={a+cx,b+cy}; } };
	static const h2d::Rotate R[]={h2d::Rotate::CCW,h2d::Rotate::CW,h2d::Rotate::Full,h2d::Rotate::VMirror,h2d::Rotate::HMirror};
	step();
	auto& o=s.obj; auto& m=s.m;
	if( op<100 )            // mutators
	switch( op )
	{
		case 0: o.translate( 3, -2 ); tr(m,3,-2); break;
		case 1: o.translate( std::make_pair(-0.5,10.25) ); tr(m,-0.5,10.25); break;
		case 2: if( m.empty() ) { check( thrown([&]{ o.moveTo(7,8); })==1, "refused", "moveTo on an empty polyline" ); break; }
			o.moveTo( 7, 8 ); tr( m, 7-m[0].x, 8-m[0].y ); break;
		case 3: if( m.empty() ) { check( thrown([&]{ h2d::moveTo(o,Pt(-4,0.5)); })==1, "refused", "moveTo on an empty polyline" ); break; }
			h2d::moveTo( o, Pt(-4,0.5) ); tr( m, -4-m[0].x, 0.5-m[0].y ); break;
		case 4: case 5: case 6: case 7: case 8: o.rotate( R[op-4] ); rot( m, op-4, 0, 0 ); break;
		case 9: o.rotate( R[0], Pt(1,-2) ); rot( m, 0, 1, -2 ); break;
		case 10: h2d::rotate( o, R[4], Pt(2,5) ); rot( m, 4, 2, 5 ); break;
		case 11: { PL f( cv(m) ); f.minimize(); o.minimize(); m.clear(); for( auto& q: ((const PL&)f).getPts() ) m.push_back({(double)q.getX(),(double)q.getY()}); } break;
		case 12: case 13: case 14: case 15: o.set( cv( shapes()[op-12] ) ); m=shapes()[op-12]; break;
		case 16: o.clear(); m.clear(); break;
		case 17: o=s.other; m=s.mo; break;
		case 18: { PL c(o); o=c; } break;
		case 19: std::swap( s.obj, s.other ); std::swap( s.m, s.mo ); break;
		case 20: // (a point moved onto its neighbour would no longer be a valid polyline)
			if( !m.empty() && !( m.size()>1 && [&]{ auto on=[&]( auto& q ){ return near(q.x,m[0].x-0.5,1e-9) && near(q.y,m[0].y-0.25,1e-9); }; return on(m[1])||on(m.back()); }() ) ) { auto& v=o.getPts(); v[0].set( v[0].getX()-0.5, v[0].getY()-0.25 ); m[0].x-=0.5; m[0].y-=0.25; } break;
		case 21: if( !m.empty() ) { for( auto& q: o.getPts() ) q.translate( 2, 2 ); tr(m,2,2); } break;
		case 22: { PL tmp; tmp=std::move(s.obj); s.obj=std::move(tmp); } break;
		case 23: h2d::translate( o, 1.5, 2.5 ); tr(m,1.5,2.5); break;
		case 24: if constexpr( CLOSED ) { o.set( h2d::FRect_<T>(1,1,4,3) ); m={{1,1},{1,3},{4,3},{4,1}}; } break;
		case 25: if constexpr( CLOSED ) { o.setParallelogram( Pt(0,0), Pt(4,0), Pt(5,3) ); m={{0,0},{4,0},{5,3},{1,3}}; } break;
		case 26: if constexpr( CLOSED ) { o.set( 2., 4 ); m={{2,0},{0,2},{-2,0},{0,-2}}; } break;
	}
	else if( op<200 )       // refused operations: must throw and change nothing
	{
		int r=0;
		switch( op )
		{
			case 100: r=thrown([&]{ o.set( std::vector<Pt>{ {9,9} } ); }); break;
			case 101: r=thrown([&]{ o.set( std::vector<Pt>{ {9,9},{9,9},{1,1} } ); }); break;
			case 102: r=thrown([&]{ o.set( std::vector<Pt>{ {9,9},{8,9},{1,1},{9,9} } ); }); break;
			case 103: r=thrown([&]{ (void)((const PL&)o).getPoint( 50 ); }); break;
			case 104: r=thrown([&]{ (void)o.getSegment( 50 ); }); break;
		}
		check( r==1, "refused", [&]{ return str("operation ",op," not refused with runtime_error: ",r); } );
	}
	else if( op==200 ) { bool e=(o==s.other); (void)e; }
	else if( op==201 ) { PL c( cv(m) ); check( o==c, "equal", "object differs from a fresh one with the same points" ); check( !(o!=c), "equal", "!=" ); }
	else if( op>=300 ) { observe( (const PL&)o, op-300 ); return; }
	if( !check( sync( (const PL&)o, m, CLOSED ), "points", [&]{ std::ostringstream os; os<<"after op "<<op<<": object "<<o; return os.str(); } ) )
	{ m.clear(); for( auto& q: ((const PL&)o).getPts() ) m.push_back({(double)q.getX(),(double)q.getY()}); }
	sync( (const PL&)s.other, s.mo, CLOSED );
}
static std::string opn( int op )
{
	static const char* n[]={"translate(3,-2)","translate(pair)","moveTo(7,8)","moveTo(pt)","rotate(CCW)","rotate(CW)","rotate(Full)","rotate(VMirror)","rotate(HMirror)","rotate(CCW,pt)","rotate(HMirror,pt)","minimize","set(L)","set(bowtie)","set(triangle)","set(square+)","clear","=other","=copy","swap","getPts()[0]=","getPts()*=","move","translate-free","set(FRect)","setParallelogram","set(rcp)"};
	if( op<100 ) return n[op];
	if( op<200 ) return "refused"+std::to_string(op-100);
	if( op==200 ) return "==other"; if( op==201 ) return "==fresh";
	static const char* q[]={"length","area","isSimple","centroid","isConvex","getBB","size","extreme","getSegs","getOSegs","isInside","intersects","getPoint"};
	return q[op-300];
}
template<class PL, bool CLOSED>
void history( int start, int otherShape, const std::vector<int>& ops )
{
	run( [&]
	{
		Sys<PL> s; s.m=shapes()[start]; s.mo=shapes()[otherShape];
		s.obj.set( cv(s.m) ); s.other.set( cv(s.mo) );
		for( int op: ops ) apply<PL,CLOSED>( s, op );
		// compare every query with a fresh object having the current points
		const PL fresh( cv(s.m) );
		auto a=observe( (const PL&)s.obj ), b=observe( fresh );
		if( !eqv(a,b) )
			for( int q=0;q<NQ;q++ )
			{
				auto x=observe( (const PL&)s.obj, q ), y=observe( fresh, q );
				check( eqv(x,y), opn(300+q).c_str(), [&]{ std::ostringstream os; os<<"got"; for(auto v:x) os<<' '<<v; os<<" expected"; for(auto v:y) os<<' '<<v; return os.str(); } );
			}
		else check( true, "ok" );
		const PL fo( cv(s.mo) );
		check( eqv( observe((const PL&)s.other), observe(fo) ), "other", "the other object changed" );
		uint64_t h=0; for( auto v: b ) h=mix(h,hd(v)); outcome(h);
	}, [&]{ std::ostringstream os; os<<(CLOSED?"closed":"open")<<" shape"<<start<<" other"<<otherShape<<":"; for( int o: ops ) os<<' '<<opn(o); return os.str(); } );
}
template<class F> void seqs( const std::vector<int>& al, int n, F f )
{
	std::vector<int> c; std::function<void()> rec=[&]{ if( (int)c.size()==n ) { f(c); return; } for( int a: al ) { c.push_back(a); rec(); c.pop_back(); } }; rec();
}
template<class PL, bool CLOSED> void all()
{
	std::string k = CLOSED?"closed":"open";
	std::vector<int> full;
	for( int i=0;i<=26;i++ ) if( CLOSED || i<24 ) full.push_back(i);
	for( int i=100;i<=104;i++ ) full.push_back(i);
	full.push_back(200); full.push_back(201);
	auto queries=std::vector<int>{300,301,302,303,304,310};
	auto f2=full; for( int q: queries ) f2.push_back(q);
	section(k+"-depth2-all-queries");
	{ auto a=full; for( int q=0;q<NQ;q++ ) a.push_back(300+q);
	  for( int st=0; st<NSMALL; st++ ) for( int n=0;n<=2;n++ ) seqs( a, n, [&](auto& c){ history<PL,CLOSED>( st, (st+1)%4, c ); } ); }
	section(k+"-large");
	{ auto a=full; for( int q: {300,301,302,303,304,305,309,310,311,312} ) a.push_back(q);
	  for( int st=NSMALL; st<(int)shapes().size(); st++ ) { const int o= st%2 ? 0 : st+1<(int)shapes().size() ? st+1 : NSMALL; if( shapes()[st].size()>50 ) { seqs( queries, 1, [&](auto& c){ history<PL,CLOSED>( st, o, c ); } ); continue; }
		for( int n=0;n<=(shapes()[st].size()<14||thorough()?2:1);n++ ) seqs( a, n, [&](auto& c){ history<PL,CLOSED>( st, o, c ); } );
		for( int q: {300,301,302,303,304} ) for( int op: full ) history<PL,CLOSED>( st, o, {q,op} ); } }
	section(k+"-depth3");
	for( int st=0; st<(thorough()?6:4); st++ ) seqs( f2, 3, [&](auto& c){ history<PL,CLOSED>( st, (st+1)%4, c ); } );
	section(k+"-depth4-core");
	std::vector<int> core{0,2,4,8,10,11,12,17,19,20,200,201,300,301,303};
	for( int st: {0,2,3} ) seqs( core, 4, [&](auto& c){ if( st==0 || thorough() || c[0]>=200 ) history<PL,CLOSED>( st, (st+2)%4, c ); } );
	section(k+"-depth5-core");
	std::vector<int> c5{0,2,4,11,17,20,201,301,303};
	seqs( c5, 5, [&](auto& c){ history<PL,CLOSED>( 0, 2, c ); } );
	if( thorough() ) { section(k+"-depth4-full"); seqs( f2, 4, [&](auto& c){ history<PL,CLOSED>( 0, 2, c ); } );
		section(k+"-depth7"); seqs( {0,4,17,20,201,301,303}, 7, [&](auto& c){ history<PL,CLOSED>( 3, 0, c ); } ); }
}
int main( int argc, char** argv )
{
	init( argc, argv );
	all<h2d::CPolyline_<T>,true>();
	all<h2d::OPolyline_<T>,false>();
	return finish();
}
