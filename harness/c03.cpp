// C03: a homography maps every shape to the shape of its image points (all shapes on a grid x an alphabet of homographies)
#include "geo.hpp"
#include <deque>
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using h2d::operator*;
typedef long double LD;
struct HM { const char* name; double m[9]; };
static const HM hs[]={
 {"identity",{1,0,0,0,1,0,0,0,1}}, {"translate",{1,0,3.5,0,1,-2,0,0,1}}, {"rot90",{0,-1,0,1,0,0,0,0,1}}, {"rot180",{-1,0,1,0,-1,2,0,0,1}},
 {"rot0.7",{0.7648421872844885,-0.644217687237691,0,0.644217687237691,0.7648421872844885,0,0,0,1}},
 {"scale(2,.5)",{2,0,0,0,0.5,0,0,0,1}}, {"mirror-x",{-1,0,0,0,1,0,0,0,1}}, {"mirror-y",{1,0,0,0,-1,7,0,0,1}}, {"shear",{1,2,0,0,1,0,0,0,1}}, {"affine",{0.5,-3,1,2,0.25,-4,0,0,1}},
 {"swap",{0,1,0,1,0,0,0,0,1}}, {"proj-mild",{1,0.25,2,-0.5,2,1,0.0625,-0.03125,1}}, {"proj-far",{1,0,0,0,1,0,0.25,0.125,1}}, {"proj-neg",{2,1,0,-1,1,3,-1,-1,1}}, {"proj-neg2",{1,0,1,0,1,-1,0,-2,1}}, {"tiny",{0.015625,0,0,0,-0.015625,0,0,0,1}}, {"sym-shear",{1,0.5,0,0.5,1,0,0,0,1}}, {"mirror-diag",{0.6,0.8,2,0.8,-0.6,1,0,0,1}}, {"similarity",{1.5,-2,1,2,1.5,-3,0,0,1}} };
struct P { double x,y; };
template<class T> struct R
{
	typedef h2d::Point2d_<T> Pt;
	const HM& h; h2d::Homogr_<T> H; const geo::Emb& e;
	R( const HM& hm, const geo::Emb& em ): h(hm), e(em) { std::vector<std::vector<double>> v(3); for(int i=0;i<9;i++) v[i/3].push_back(h.m[i]); H=h2d::Homogr_<T>(v); }
	Pt pt( const IP& q ) const { return Pt( e.X(q.x,q.y), e.Y(q.x,q.y) ); }
	LD w( const IP& q ) const { LD x=e.X(q.x,q.y),y=e.Y(q.x,q.y); return h.m[6]*x+h.m[7]*y+h.m[8]; }
	P im( double X, double Y ) const { LD x=X,y=Y,W=h.m[6]*x+h.m[7]*y+h.m[8]; return { double((h.m[0]*x+h.m[1]*y+h.m[2])/W), double((h.m[3]*x+h.m[4]*y+h.m[5])/W) }; }
	P im( const IP& q ) const { return im( (double)(T)e.X(q.x,q.y), (double)(T)e.Y(q.x,q.y) ); }
	bool ok( const Poly& v ) const { int s=0; for( auto& q: v ) { LD x=w(q); if( std::fabs(x)<0.1 ) return false; int t=x>0?1:-1; if( s && t!=s ) return false; s=t; } return true; }
	double tol() const { return std::is_same_v<T,float>?1e-3:1e-8; }
	bool is( const Pt& a, const P& b ) const { return near(a.getX(),b.x,tol()) && near(a.getY(),b.y,tol()); }
	bool is( const Pt& a, const IP& b ) const { return is( a, im(b) ); }
};
static bool lt( const P& a, const P& b ) { return a.x<b.x || (a.x==b.x && a.y<b.y); }
template<class T> void segs( const R<T>& r, const Poly& v )
{
	typedef h2d::Segment_<T> S; typedef h2d::OSegment_<T> O;
	auto a=r.pt(v[0]), b=r.pt(v[1]); P ia=r.im(v[0]), ib=r.im(v[1]);
	if( std::hypot(ia.x-ib.x,ia.y-ib.y)<1e-6 ) return;
	step(3);
	auto okS=[&]( const S& s ) { auto p=s.getPts(); bool f=r.is(p.first,ia)&&r.is(p.second,ib), g=r.is(p.first,ib)&&r.is(p.second,ia);
		bool ord = p.first.getX()<p.second.getX() || ( p.first.getX()==p.second.getX() && p.first.getY()<p.second.getY() ); return (f||g) && ord; };
	S s(a,b); check( okS( r.H*s ), "segment", [&]{ std::ostringstream o; o<<(r.H*s); return o.str(); } );
	O os(a,b); auto ro=r.H*os;
	check( std::is_same_v<decltype(ro),O>, "oseg-type", "the image of an oriented segment is not oriented" );
	{ auto p=ro.getPts(); check( r.is(p.first,ia)&&r.is(p.second,ib), "osegment", [&]{ std::ostringstream o; o<<ro; return o.str(); } ); }
	{ std::vector<S> vs{ s, S(b,a) }; auto w=r.H*vs; check( w.size()==2 && okS(w[0]) && okS(w[1]), "vec-seg" ); r.H.applyTo(vs); check( okS(vs[0])&&okS(vs[1]), "apply-seg" ); }
	{ std::list<O> vs{ os }; r.H.applyTo(vs); auto p=vs.front().getPts(); check( r.is(p.first,ia)&&r.is(p.second,ib), "apply-oseg" ); }
	// lines
	h2d::Line2d_<T> li=a*b; h2d::Line2d_<T> hl=r.H*li; Pt: ;
	double sc=1+std::fabs(ia.x)+std::fabs(ia.y)+std::fabs(ib.x)+std::fabs(ib.y);
	auto in=[&]( const h2d::Line2d_<T>& l ){ return l.distTo( typename R<T>::Pt(ia.x,ia.y) )<r.tol()*10*sc && l.distTo( typename R<T>::Pt(ib.x,ib.y) )<r.tol()*10*sc; };
	check( in(hl), "line" );
	{ std::array<h2d::Line2d_<T>,2> al{ li, li }; auto w=r.H*al; check( in(w[0])&&in(w[1]), "arr-line" ); std::list<h2d::Line2d_<T>> ll{ li }; check( in( (r.H*ll).front() ), "list-line" ); }
	// rectangle
	if( v[0].x!=v[1].x && v[0].y!=v[1].y && r.ok( { {v[0].x,v[1].y},{v[1].x,v[0].y},v[0],v[1] } ) )
	{
		h2d::FRect_<T> rect( a, b ); auto c=r.H*rect; auto q=rect.get4Pts();
		check( std::is_same_v<decltype(c),h2d::CPolyline_<T>>, "rect-type" );
		bool ok=c.size()==4; for( int i=0;ok&&i<4;i++ ) ok=r.is( ((const decltype(c)&)c).getPoint(i), r.im( q[i].getX(), q[i].getY() ) );
		check( ok, "rect", [&]{ std::ostringstream o; o<<c; return o.str(); } );
	}
	outcome( mix(hd(ia.x),hd(ib.y)) );
}
template<class T,class PL> void poly( const R<T>& r, const Poly& v )
{
	std::vector<typename R<T>::Pt> p; for( auto& q: v ) p.push_back( r.pt(q) );
	PL pl(p); const PL src(p);
	auto okk=[&]( const PL& o ){ if( o.size()!=v.size() ) return false; for( size_t i=0;i<v.size();i++ ) if( !r.is(o.getPoint(i),v[i]) ) return false; return true; };
	step(3);
	// warm caches of the source, then transform: the result must not inherit them
	bool simple=src.isSimple(); src.length(); if( simple ) src.area();
	auto o=r.H*src;
	check( std::is_same_v<decltype(o),PL>, "poly-type" );
	check( okk(o), "poly", [&]{ std::ostringstream os; os<<o; return os.str(); } );
	const PL fresh( ((const PL&)o).getPts() );
	check( near(o.length(),fresh.length(),r.tol()) && o.isSimple()==fresh.isSimple() && near(o.area(),fresh.area(),r.tol()), "poly-attributes" );
	check( okk( r.H*( r.H==r.H ? pl : pl ) ), "poly2" );
	std::vector<PL> vp{ pl, pl }; auto w=r.H*vp; check( w.size()==2 && okk(w[0]) && okk(w[1]), "vec-poly" );
	r.H.applyTo( vp ); check( okk(vp[0])&&okk(vp[1]), "apply-poly" );
	// an object already holding cached values is overwritten
	PL dst( std::vector<typename R<T>::Pt>{ {0,0},{9,0},{9,9},{0,9} } ); dst.length(); dst.area(); dst=r.H*src;
	check( okk(dst) && near(dst.length(),fresh.length(),r.tol()) && near(dst.area(),fresh.area(),r.tol()), "poly-assign" );
	// containers of points
	bool all=true; auto hp=r.H*p; for( size_t i=0;i<v.size();i++ ) all=all&&r.is(hp[i],v[i]); check( all&&hp.size()==v.size(), "vec-pt" );
	std::list<typename R<T>::Pt> lp( p.begin(), p.end() ); auto hl=r.H*lp; size_t i=0; for( auto& q: hl ) all=all&&r.is(q,v[i++]); check( all&&i==v.size(), "list-pt" );
	r.H.applyTo(lp); i=0; for( auto& q: lp ) all=all&&r.is(q,v[i++]); check( all, "apply-pt" );
	std::array<typename R<T>::Pt,2> ap{ p[0],p[1] }; auto ha=r.H*ap; check( r.is(ha[0],v[0])&&r.is(ha[1],v[1]), "arr-pt" );
	outcome( mix( hd(o.length()), 7 ) );
}
template<class T> void conic( const R<T>& r, const IP& c, double rad, double rb, double ang, bool circle )
{
	double cx=r.e.X(c.x,c.y), cy=r.e.Y(c.x,c.y), A=std::max(rad,rb), B=std::min(rad,rb);   // the angle is the one of the major axis
	auto W=[&]( double x,double y ){ return r.h.m[6]*x+r.h.m[7]*y+r.h.m[8]; };
	// the curve must stay away from the line sent to infinity
	double wn=std::hypot(r.h.m[6],r.h.m[7])*std::max(A,B); if( std::fabs(W(cx,cy)) < wn+0.1 ) return;
	step(2);
	h2d::Ellipse_<T> src( cx, cy, A, B, ang );
	h2d::Ellipse_<T> out = circle ? h2d::Ellipse_<T>( r.H*h2d::Circle_<T>( cx, cy, A ) ) : h2d::Ellipse_<T>( r.H*src );
	auto& q=((const h2d::detail::Matrix_<T>&)out).getRaw();
	auto val=[&]( const P& p ){ LD x=p.x,y=p.y; LD t[]={ q[0][0]*x*x, 2*q[0][1]*x*y, q[1][1]*y*y, 2*q[0][2]*x, 2*q[1][2]*y, (LD)q[2][2] }; LD s=0; for( auto u: t ) s+=u; LD R=1+std::fabs(x)+std::fabs(y), a=(std::fabs((LD)q[0][0])+std::fabs((LD)q[1][1])+2*std::fabs((LD)q[0][1]))*R*R + 2*(std::fabs((LD)q[0][2])+std::fabs((LD)q[1][2]))*R + std::fabs((LD)q[2][2]); return (double)(s/a); };
	// relative position in the curve is kept, for the points at 0.5, 1 and 1.5 times the curve
	double vin=val( r.im(cx,cy) );
	for( int k=0;k<16;k++ )
	{
		double t=k*M_PI/8, u=A*std::cos(t), v=B*std::sin(t);
		auto at=[&]( double f ){ return r.im( cx+f*(u*std::cos(ang)-v*std::sin(ang)), cy+f*(u*std::sin(ang)+v*std::cos(ang)) ); };
		check( std::fabs(val(at(1)))<r.tol()*100, "conic-on", [&]{ P p=at(1); return str("image point ",p.x,",",p.y," is not on the image, value ",val(p)); } );
		check( val(at(0.75))*vin>0, "conic-in" );
		double f=1.25; if( std::fabs(W(cx,cy)) > 1.3*wn+0.1 ) check( val(at(f))*vin<0, "conic-out" );
	}
	outcome( hd(vin) );
}
static std::string d( const char* k, const HM& h, const geo::Emb& e, const Poly& v ) { std::ostringstream o; o<<k<<' '<<v<<" H="<<h.name<<" emb="<<e.name; return o.str(); }
int main( int argc, char** argv )
{
	init( argc, argv );
	auto& E=geo::embeddings();
	const geo::Emb shifted{ 0.5,1.25,2.75,false,true,"shifted" }, neg{ 1,-6,-3,true,true,"negative" };
	std::vector<geo::Emb> em{ E[0], shifted, neg, E[3] }; if( thorough() ) { em.push_back(E[1]); em.push_back(E[4]); em.push_back(E[2]); }
	for( auto& e: em ) for( auto& h: hs )
	{
		R<double> r(h,e); R<long double> rl(h,e); R<float> rf(h,e);
		int n=thorough()?7:4;
		section("segments"); geo::sequences( geo::grid(0,0,n,n), 2, true, false, [&]( const Poly& v ){ if( r.ok(v) ) { run( [&]{ segs(r,v); }, [&]{ return d("double",h,e,v); } ); } } );
		section("segments-types"); geo::sequences( geo::grid(0,0,2,2), 2, true, false, [&]( const Poly& v ){ if( r.ok(v) ) { run( [&]{ segs(rl,v); }, [&]{ return d("long double",h,e,v); } ); if( e.exact ) run( [&]{ segs(rf,v); }, [&]{ return d("float",h,e,v); } ); } } );
		section("polylines");
		for( int k=2;k<=(thorough()?5:3);k++ ) geo::sequences( geo::grid(0,0,k<4?3:k<5?2:1,k<4?3:2), k, true, false, [&]( const Poly& v ){ if( r.ok(v) ) { run( [&]{ poly<double,h2d::CPolyline_<double>>(r,v); }, [&]{ return d("closed",h,e,v); } ); run( [&]{ poly<double,h2d::OPolyline_<double>>(r,v); }, [&]{ return d("open",h,e,v); } ); } } );
		section("polygons4"); geo::sequences( geo::grid(0,0,2,2), 4, true, true, [&]( const Poly& v ){ if( r.ok(v) ) run( [&]{ poly<double,h2d::CPolyline_<double>>(r,v); }, [&]{ return d("closed",h,e,v); } ); } );
		section("large");
		for( int n2: geo::bigSizes() ) for( auto& v: geo::big(n2) ) if( r.ok(v) ) { run( [&]{ poly<double,h2d::CPolyline_<double>>(r,v); }, [&]{ return d("closed",h,e,v); } ); run( [&]{ poly<double,h2d::OPolyline_<double>>(r,v); }, [&]{ return d("open",h,e,v); } ); }
		if( e.s>1e5 ) continue;   // the coefficients of a conic there are below the precision of a double
		section("conics");
		for( auto& c: geo::grid(-1,-1,3,3) ) for( double a: {0.5,1.,2.5} ) { run( [&]{ conic(r,c,a,a,0,true); }, [&]{ return d("circle",h,e,{c})+str(" r=",a); } );
			for( double b: {0.25,0.75,4.} ) for( double an: {0.,0.5,M_PI/4,M_PI/2,2.,-1.,3.} ) run( [&]{ conic(r,c,a,b,an,false); }, [&]{ return d("ellipse",h,e,{c})+str(" a=",a," b=",b," angle=",an); } ); }
	}
	// every small integer matrix: 2x2 part in {-1,0,1,2}, with or without a translation and a perspective part
	section("matrices");
	{
		static std::deque<std::string> names;
		std::vector<Poly> sh{ {{0,0},{2,1}}, {{2,1},{0,1}}, {{0,0},{2,0},{1,2}}, {{1,0},{0,2},{-1,-1}} };
		const std::vector<double> val = thorough()? std::vector<double>{-2,-1,-0.5,0,1,2} : std::vector<double>{-1,0,1,2};
		for( double a: val ) for( double b: val ) for( double c: val ) for( double d_: val ) if( a*d_!=b*c ) for( int t=0;t<2;t++ ) for( double p: {0.,0.125} ) for( double q: {0.,-0.25} )
		{
			HM h{ "", { a,b,t?3.:0., c,d_,t?-2.:0., p,q,1. } };
			double det=a*(d_-h.m[5]*q)-b*(c-h.m[5]*p)+h.m[2]*(c*q-d_*p); if( std::fabs(det)<0.01 ) continue;
			names.push_back( str(a,",",b,",",h.m[2],",",c,",",d_,",",h.m[5],",",p,",",q) ); h.name=names.back().c_str();
			R<double> r(h,E[0]);
			for( auto& v: sh ) if( r.ok(v) ) run( [&]{ if( v.size()==2 ) segs(r,v); poly<double,h2d::OPolyline_<double>>(r,v); }, [&]{ return d("open",h,E[0],v); } );
			for( auto& v: sh ) if( v.size()>2 && r.ok(v) ) run( [&]{ poly<double,h2d::CPolyline_<double>>(r,v); }, [&]{ return d("closed",h,E[0],v); } );
			for( auto& o: {IP{0,0},IP{1,-1},IP{-1,2}} ) { for( double k: {0.5,2.} ) run( [&]{ conic(r,o,k,k,0,true); }, [&]{ return d("circle",h,E[0],{o})+str(" r=",k); } );
				for( double an: {0.,M_PI/4,2.} ) run( [&]{ conic(r,o,2,1,an,false); }, [&]{ return d("ellipse",h,E[0],{o})+str(" angle=",an); } ); }
		}
	}
	return finish();
}
