// C15: polyline equality means same path (open) or same cyclic vertex list in either direction (closed).
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using namespace h2d;

template<class T> static std::vector<Point2d_<T>> cv( const Poly& p, const geo::Emb& e )
{ std::vector<Point2d_<T>> v; for( auto& q: p ) v.emplace_back( e.X(q.x,q.y), e.Y(q.x,q.y) ); return v; }

// canonical form of the vertex list: smallest of all listings
static Poly canonC( const Poly& p ) { Poly b=p; for( size_t k=0;k<2*p.size();k++ ) b=std::min( b, geo::listing(p,k) ); return b; }
static Poly canonO( const Poly& p ) { return std::min( p, geo::reversed(p) ); }
static bool validC( const Poly& p ) { for( size_t i=0;i<p.size();i++ ) if( p[i]==p[(i+1)%p.size()] ) return false; return true; }

template<bool C,class T> using PL = std::conditional_t<C,CPolyline_<T>,OPolyline_<T>>;

/// all vertex lists of a size on a grid, all ordered pairs
template<bool C,class T1,class T2>
void pairs( const char* name, const std::vector<IP>& g, size_t n, bool distinct, const geo::Emb& e, bool firstCanon )
{
	section( str( C?"closed":"open", '-', name, '-', e.name ) );
	std::vector<Poly> v, cn; std::map<Poly,int> id; std::vector<int> cls;
	geo::sequences( g, n, distinct, false, [&]( const Poly& p ) { if( validC(p) ) v.push_back(p); } );
	std::vector<PL<C,T2>> ob;
	for( auto& p: v ) { Poly c = C?canonC(p):canonO(p); cn.push_back(c); cls.push_back( id.emplace(c,id.size()).first->second ); ob.emplace_back( cv<T2>(p,e) ); }
	for( size_t i=0;i<v.size();i++ )
	{
		if( firstCanon && v[i]!=cn[i] ) continue;
		run( [&]{
			for( size_t j=0;j<v.size();j++ )
			{
				PL<C,T1> a( cv<T1>(v[i],e) );
				bool want = cls[i]==cls[j];
				step(2);
				bool r1, r2;
				if( j%2 ) { r1 = a==ob[j]; r2 = ob[j]==a; } else { PL<C,T2> f( cv<T2>(v[j],e) ); r1 = f==a; r2 = a==f; }
				// a repeated vertex: which listings are equal is not claimed (the unit tests ask for some to differ), only soundness and symmetry
				if( !distinct ) check( r1==r2 && (want||!r1) && (i!=j||r1), "equal-repeated", [&]{ return str( v[i]," == ",v[j]," gives ",r1," and ",r2 ); } );
				else check( r1==want && r2==want, "equal", [&]{ return str( v[i]," == ",v[j]," gives ",r1," and ",r2,", expected ",want ); } );
				check( (a!=ob[j])==!r1, "notequal", [&]{ return str( v[i]," != ",v[j] ); } );
				outcome( mix(want,mix(i,n)) );
			}
		}, [&]{ return str( "list ",v[i]," against all ",v.size() ); } );
	}
}

/// many vertices: every listing, and every exchange of two vertices or displacement of one
template<bool C>
void large( const geo::Emb& e )
{
	section( str( C?"closed":"open", "-large-", e.name ) );
	for( int n: geo::bigSizes() ) { int id=0; for( auto& p: geo::big(n) )
	{
		id++; const Poly cp = C?canonC(p):canonO(p);
		auto ask=[&]( const Poly& q, size_t k ) { run( [&]{
				PL<C,double> a( cv<double>(p,e) ), b( cv<double>(q,e) ), c(a), d(b); bool want = cp==(C?canonC(q):canonO(q)); step(3);
				bool r1=a==b, r2=d==c; check( r1==want && r2==want, "equal", [&]{ return str( p," == ",q," gives ",r1," and ",r2,", expected ",want ); } ); check( (a!=b)==!r1, "notequal" ); outcome( mix(want,k) );
			}, [&]{ return str( "large ",n," shape ",id," other ",k ); } ); };
		for( size_t k=0;k<2*p.size();k++ ) ask( geo::listing(p,k), k );
		for( size_t i=0;i<p.size();i++ ) { Poly q=geo::listing(p,i); q[i].y+=1; if( validC(q) ) ask( q, 1000+i ); q=geo::listing(p,p.size()+i); std::swap( q[i], q[(i+2)%q.size()] ); if( validC(q) ) ask( q, 2000+i ); q=p; q.insert( q.begin()+i, {q[i].x-7,q[i].y-3} ); if( validC(q) ) ask( q, 3000+i ); }
	} }
}

/// what a comparison may do to the object: reorder a closed polygon cyclically / reverse; nothing else
template<bool C,class T>
Poly listOf( const PL<C,T>& p, const geo::Emb& e, bool& ok )
{
	Poly r; ok=true;
	for( auto& q: p.getPts() )
	{
		double x=((double)q.getX()-e.tx)/e.s, y=((double)q.getY()-e.ty)/e.s; if( e.swap ) std::swap(x,y);
		r.push_back( {(ll)std::lround(x),(ll)std::lround(y)} );
		if( std::fabs(x-std::round(x))>1e-6 || std::fabs(y-std::round(y))>1e-6 ) ok=false;
	}
	return r;
}

/// histories: comparisons, motions and copies on a set of objects; equality must always be the one of the models
struct Sim { Poly p; };
template<bool C>
void histories( int depth, const geo::Emb& e )
{
	typedef double T;
	section( str( "history-", C?"closed":"open", '-', e.name ) );
	static const std::vector<Poly> shapes{
		{{0,0},{2,0},{2,1},{1,2}}, {{0,0},{2,0},{1,0},{2,2}}, {{0,0},{0,2},{0,1},{2,1}}, {{1,2},{2,0},{0,0}}, {{0,0},{1,2},{2,1},{2,0}}, {{0,2},{2,2},{0,0},{2,0}}, {{0,1},{1,0}} };
	static const char* on[]={"a==b","b==a","a.translate","b.translate","a.rotate(CCW)","b.rotate(CCW)","a.rotate(HMirror)","b.rotate(VMirror)","a=b","b=copy(a)","swap","a.moveTo","b.getPts()[0] moved","a.reversed","a.area","b.length"};
	const int NOP=16;
	for( size_t ia=0;ia<shapes.size();ia++ ) for( size_t ib=0;ib<shapes.size();ib++ )
	{
		std::vector<int> seq;
		std::function<void()> rec=[&]
		{
			if( (int)seq.size()==depth )
			{
				run( [&]{
					Poly ma=shapes[ia], mb=shapes[ib];
					PL<C,T> a( cv<T>(ma,e) ), b( cv<T>(mb,e) );
					auto canon=[&]( const Poly& p ) { return C?canonC(p):canonO(p); };
					auto rot=[&]( Poly& m, int r ) { for( auto& q: m ) { ll x=q.x,y=q.y; if(r==0) q={-y,x}; else if(r==1) q={x,-y}; else q={-x,y}; } };
					auto rc=[&]( PL<C,T>& p, Rotate r ) { p.rotate( r, Point2d_<T>( e.tx, e.ty ) ); };
					auto sync=[&]( const PL<C,T>& o, Poly& m, const char* w ) {
						bool ok; Poly l=listOf<C,T>(o,e,ok);
						check( ok && canon(l)==canon(m), "described", [&]{ return str( w,": object holds ",l,", model ",m ); } );
						m=l; };
					for( int op: seq )
					{
						step();
						switch( op )
						{
							case 0: check( (a==b)==(canon(ma)==canon(mb)), "history", [&]{ return str( "a==b with ",ma,' ',mb ); } ); break;
							case 1: check( (b==a)==(canon(ma)==canon(mb)), "history", [&]{ return str( "b==a with ",ma,' ',mb ); } ); break;
							case 2: a.translate( e.X(3,-1)-e.X(0,0), e.Y(3,-1)-e.Y(0,0) ); for( auto& q: ma ) { q.x+=3; q.y-=1; } break;
							case 3: b.translate( e.X(-2,4)-e.X(0,0), e.Y(-2,4)-e.Y(0,0) ); for( auto& q: mb ) { q.x-=2; q.y+=4; } break;
							case 4: rc( a, Rotate::CCW ); rot( ma, 0 ); break;
							case 5: rc( b, Rotate::CCW ); rot( mb, 0 ); break;
							case 6: rc( a, Rotate::HMirror ); rot( ma, 1 ); break;
							case 7: rc( b, Rotate::VMirror ); rot( mb, 2 ); break;
							case 8: a=b; ma=mb; break;
							case 9: { PL<C,T> c(a); b=c; mb=ma; } break;
							case 10: std::swap(a,b); std::swap(ma,mb); break;
							case 11: sync(a,ma,"before moveTo"); a.moveTo( e.X(1,1), e.Y(1,1) ); { IP d=ma[0]; for( auto& q: ma ) { q.x+=1-d.x; q.y+=1-d.y; } } break;
							case 12: sync(b,mb,"before move"); b.getPts()[0].set( e.X(mb[0].x-7,mb[0].y+5), e.Y(mb[0].x-7,mb[0].y+5) ); mb[0].x-=7; mb[0].y+=5; break;
							case 13: sync(a,ma,"before reversal"); { auto& v=a.getPts(); std::reverse(v.begin(),v.end()); } ma=geo::reversed(ma); break;
							case 14: (void)a.area(); (void)a.isSimple(); break;
							case 15: (void)b.length(); break;
						}
					}
					bool want = canon(ma)==canon(mb);
					check( (a==b)==want && (b==a)==want && (a!=b)!=want, "history", [&]{ return str( "finally a==b with ",ma,' ',mb ); } );
					check( (a==PL<C,T>(cv<T>(ma,e))) && (b==PL<C,T>(cv<T>(mb,e))), "fresh", [&]{ return str( "differs from a fresh copy: ",ma,' ',mb ); } );
					sync( a, ma, "a" ); sync( b, mb, "b" );
					PL<C,T> fa( cv<T>(ma,e) );
					double tol = std::fabs(e.tx)>1e3 ? 1e-5 : 1e-9;
					check( near( a.length(), fa.length(), tol ) && near( a.area(), fa.area(), tol ) && a.isSimple()==fa.isSimple(), "measures", "measures changed" );
					uint64_t h=want; for( auto& q: canon(ma) ) h=mix(h,mix(q.x,q.y)); outcome(h);
				}, [&]{ std::string s; for( int o: seq ) s+=str(on[o],"; "); return str( "a=",shapes[ia]," b=",shapes[ib]," then ",s ); } );
				return;
			}
			for( int o=0;o<NOP;o++ ) { seq.push_back(o); rec(); seq.pop_back(); }
		};
		rec();
	}
}

/// polygons that went through a computation (rounded coordinates) still equal the directly built ones
template<bool C,class T>
void rounded( const char* name, size_t n, const std::vector<IP>& g )
{
	section( str( "rounded-", C?"closed":"open", '-', name, '-', n ) );
	geo::sequences( g, n, true, false, [&]( const Poly& p )
	{
		for( int how=0;how<6;how++ )
		run( [&]{
			auto& e=geo::embeddings()[how%2?3:0];
			PL<C,T> a( cv<T>(p,e) ), b;
			double s=std::sqrt(0.5);
			auto thr0=thr::nullDistance();
			if( sizeof(T)==4 ) thr::nullDistance()=1e-3;
			if( how<2 ) { Homogr_<T> h; h.setRotation( (T)M_PI/2 ); b=h*a; for( int i=0;i<3;i++ ) b=h*b; }             // four quarter turns
			else if( how<4 ) { Homogr_<T> h; h.setRotation( (T)(M_PI/6) ); b=h*a; h.inverse(); b=h*b; (void)s; }
			else { Homogr_<T> h; h.setTranslation( (T)0.1, (T)0.7 ); h.addScale( (T)3 ); b=h*a; h.inverse(); b=h*b; }
			step(3);
			bool r = a==b, q = b==a;
			thr::nullDistance()=thr0;
			check( r && q, "rounded", [&]{ return str( "a==b: ",r," b==a: ",q," for ",a," and ",b ); } );
			outcome( mix(r,how) );
		}, [&]{ return str( p, " transformed and transformed back, variant ", how ); } );
	} );
}
template<bool C>
void typesAndEmpty()
{
	section( "kinds" );
	run( [&]{
		PL<C,double> e0, e1; PL<!C,double> f0;
		check( e0==e1 && !(e0!=e1), "empty", "two empty polylines differ" );
		check( !(e0==f0) && e0!=f0, "empty", "an open and a closed empty polyline are equal" );
		PL<C,double> z( cv<double>({{0,0},{1,2},{3,1}},geo::embeddings()[0]) );
		PL<!C,double> zz( cv<double>({{0,0},{1,2},{3,1}},geo::embeddings()[0]) );
		check( !(z==zz) && z!=zz && !(zz==z), "kind", "open equals closed" );
		check( !(z==e0) && z!=e0, "empty", "empty equals non empty" );
		z.clear(); check( z==e0, "empty", "cleared differs from empty" );
	}, [&]{ return std::string( C?"closed":"open" ); } );
	geo::sequences( geo::grid(0,0,2,1), 3, true, false, [&]( const Poly& p ) {
		run( [&]{
			PL<C,double> z( cv<double>(p,geo::embeddings()[0]) ); PL<!C,double> zz( cv<double>(p,geo::embeddings()[0]) );
			check( !(z==zz) && z!=zz, "kind", "open equals closed" );
			Poly q=p; q.pop_back(); PL<C,double> y( cv<double>(q,geo::embeddings()[0]) );
			check( !(z==y) && !(y==z), "size", "different sizes compare equal" ); step(3);
		}, [&]{ return str( p ); } ); } );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	auto& E=geo::embeddings();
	geo::Emb far{0.7,15000.3,-22000.6,false,false,"far"};
	auto g33=geo::grid(0,0,2,2), g23=geo::grid(0,0,1,2), g32=geo::grid(0,0,2,1);
	pairs<true,double,double>( "2", g33, 2, true, E[0], false );
	pairs<false,double,double>( "2", g33, 2, true, E[0], false );
	pairs<true,double,double>( "3", g33, 3, true, E[0], false );
	pairs<false,double,double>( "3", g33, 3, true, E[0], false );
	pairs<true,double,double>( "4", g33, 4, true, E[0], true );
	pairs<true,double,double>( "4", g32, 4, true, E[0], false );
	pairs<false,double,double>( "4", g32, 4, true, E[0], false );
	pairs<true,double,double>( "5", g23, 5, true, E[0], true );
	pairs<false,double,double>( "5", g32, 5, true, E[0], true );
	pairs<true,double,double>( "4-repeated", g32, 4, false, E[0], true );
	pairs<true,double,double>( "5-repeated", geo::grid(0,0,1,1), 5, false, E[0], false );
	pairs<false,double,double>( "4-repeated", g32, 4, false, E[0], true );
	pairs<true,float,float>( "4float", g32, 4, true, E[1], false );
	pairs<true,float,double>( "4mixed", g32, 4, true, E[1], true );
	pairs<true,long double,double>( "4mixedl", g32, 4, true, E[2], true );
	pairs<false,float,long double>( "4mixed", g32, 4, true, E[1], true );
	for( auto& e: geo::tilted({}) ) { pairs<true,double,double>( "4emb", g32, 4, true, e, true ); pairs<true,double,double>( "4repeated-emb", g32, 4, false, e, true ); pairs<false,double,double>( "3emb", g32, 3, true, e, true ); }
	for( int i: {1,2,3,4,5} ) { pairs<true,double,double>( "4emb", g32, 4, true, E[i], true ); pairs<false,double,double>( "3emb", g32, 3, true, E[i], true ); }
	pairs<true,double,double>( "4emb", g32, 4, true, far, true );
	large<true>( E[0] ); large<false>( E[0] ); large<true>( E[3] );
	typesAndEmpty<true>(); typesAndEmpty<false>();
	rounded<true,double>( "d", 3, g33 ); rounded<true,double>( "d", 4, thorough()?g33:g32 ); rounded<false,double>( "d", 3, g33 );
	rounded<true,long double>( "l", 4, g32 );
	histories<true>( thorough()?4:3, E[0] ); histories<false>( thorough()?4:3, E[0] );
	histories<true>( 2, E[3] ); histories<false>( 2, E[1] );
	histories<true>( 2, far );
	if( thorough() )
	{
		pairs<true,double,double>( "6", g23, 6, true, E[0], true );
		pairs<true,double,double>( "5", g33, 5, true, E[0], true );
		pairs<true,double,double>( "5emb", g33, 5, true, E[3], true );
	}
	return finish();
}
