// C27: objects held by a variant or reached through a base-class pointer behave as the concrete object they are.
// The reference is a concrete object of the same construction, used directly through its own member functions.
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
#include <memory>
#include <typeindex>
using namespace mc; using namespace h2d;

#ifdef HOMOG2D_ENABLE_PRTP
#define PRTP(...) __VA_ARGS__
#else
#define PRTP(...)
#endif

/// outcome of a call: a text, or the mark that it threw
template<class Fn> std::string val( Fn&& f )
{
	step();
	try { std::ostringstream o; o.precision(19); o << f(); return o.str(); }
	catch( const std::runtime_error& ) { return "<throws>"; }
}
template<class Fn> std::string svg( Fn&& f ) { step(); img::Image<img::SvgImage> im; im.setSize(60,50); f(im); return im.getReal()._svgString.str(); }
template<class T> std::string show( const T& t ) { return val( [&]()->const T&{ return t; } ); }
template<class T> std::string ptTxt( const T& r ) { auto p=r.getPts(); return show( p.first )+show( p.second ); }

static std::vector<img::DrawParams> dps()
{
	return { img::DrawParams(), img::DrawParams().setColor(1,20,200).setThickness(3).setPointStyle(img::PtStyle::Diam).setPointSize(7), img::DrawParams().showPoints().showAngles().setAttrString("fill=\"red\"") };
}
template<class F> std::vector<Homogr_<F>> homs()
{
	std::vector<Homogr_<F>> v(4); v[1].addTranslation(3,-2).addScale(2); v[2].addRotation(0.5).addTranslation(10,7).addScale(2,3);
	std::vector<std::vector<double>> m{ {1,0.1,4},{0.2,2,5},{0.001,0.002,1} }; v[3]=Homogr_<F>( m );
	return v;
}
static void __attribute__((noinline)) clobber() { volatile double a[400]; for( int i=0;i<400;i++ ) a[i]=-7777.25*i; (void)a[3]; }

/// everything the concrete object answers
struct Answers
{
	std::string type, dtype, length, area, size, bb, text, root; std::vector<std::string> draw, trans, trans2; std::string query;
	bool hasExt=false; double x0=0,y0=0,x1=0,y1=0; Type t; int idx; const char* tn;
	std::string all() const { std::string s=type+'|'+dtype+'|'+length+'|'+area+'|'+size+'|'+bb+'|'+text+'|'+query; for( auto& d: draw ) s+='|'+d; return s; }
};
/// a few queries that a user visits with: inside a big rectangle / circle
template<class T> std::string query( const T& o )
{
	using FT=typename T::FType; FRect_<FT> big(-1000,-1000,1000,1000), small(-1,-1,4,4); Circle_<FT> ci(2,2,5);
	return val( [&]{ return o.isInside(big); } ) + val( [&]{ return o.isInside(small); } ) + val( [&]{ return o.isInside(ci); } );
}
template<class F,class T> Answers answers( const T& o, Type ty, const char* tn )
{
	Answers a; a.t=ty; a.tn=tn;
	a.type=getString(ty); a.dtype=getString( sizeof(F)==4?Dtype::Float:(sizeof(F)==8?Dtype::Double:Dtype::LongDouble) );
	a.length=val( [&]{ return o.length(); } ); a.area=val( [&]{ return o.area(); } ); a.size=val( [&]{ return o.size(); } );
	a.bb=val( [&]{ return ptTxt( o.getBB() ); } ); a.text=show(o); a.query=query(o);
	for( auto& d: dps() ) a.draw.push_back( svg( [&](auto& im){ o.draw(im,d); } ) );
	a.draw.push_back( svg( [&](auto& im){ o.draw(im); } ) );
	auto hs=homs<F>();
	for( auto& h: hs ) a.trans.push_back( val( [&]{ return h*o; } ) );
	for( auto& h: hs ) for( auto& g: hs ) a.trans2.push_back( val( [&]{ return g*(h*o); } ) );
	return a;
}

template<class F> struct Item { CommonType_<F> var; Answers a; PRTP( std::shared_ptr<rtp::Root> root; ) };

/// all types, with independent extents
template<class F> std::vector<Item<F>> items( const geo::Emb& em )
{
	std::vector<Item<F>> v;
	auto X=[&]( double x, double y ){ return em.X(x,y); }; auto Y=[&]( double x, double y ){ return em.Y(x,y); };
	auto P=[&]( double x, double y ){ return Point2d_<F>( (F)X(x,y), (F)Y(x,y) ); };
	auto add=[&]( auto o, Type t, const char* tn, std::vector<std::pair<double,double>> ext, double rx=0, double ry=0 )
	{
		Item<F> it{ CommonType_<F>(o), answers<F>(o,t,tn) PRTP(, std::make_shared<decltype(o)>(o)) };
		it.a.idx=it.var.index();
		if( !ext.empty() )
		{
			auto& a=it.a; a.hasExt=true; a.x0=a.y0=1e30; a.x1=a.y1=-1e30;
			for( auto& e: ext ) { double x=X(e.first,e.second), y=Y(e.first,e.second); a.x0=std::min(a.x0,x-rx); a.x1=std::max(a.x1,x+rx); a.y0=std::min(a.y0,y-ry); a.y1=std::max(a.y1,y+ry); }
		}
		v.push_back( std::move(it) );
	};
	double s=em.s;
	add( Point2d_<F>( P(1,2) ), Type::Point2d, "Point2d", {{1,2}} );
	add( Point2d_<F>( P(7,-3) ), Type::Point2d, "Point2d", {{7,-3}} );
	add( Line2d_<F>( P(0,1), P(3,2) ), Type::Line2d, "Line2d", {} );
	add( Line2d_<F>( P(2,1), P(2,5) ), Type::Line2d, "Line2d", {} );
	add( Segment_<F>( P(0,0), P(4,3) ), Type::Segment, "Segment", {{0,0},{4,3}} );
	add( Segment_<F>( P(5,1), P(5,-2) ), Type::Segment, "Segment", {{5,1},{5,-2}} );
	add( OSegment_<F>( P(4,3), P(0,0) ), Type::OSegment, "OSegment", {{0,0},{4,3}} );
	add( OSegment_<F>( P(-1,2), P(6,2) ), Type::OSegment, "OSegment", {{-1,2},{6,2}} );
	add( Circle_<F>( P(2,2), (F)(3*s) ), Type::Circle, "Circle", {{2,2}}, 3*s, 3*s );
	add( Circle_<F>( P(9,0), (F)(0.5*s) ), Type::Circle, "Circle", {{9,0}}, 0.5*s, 0.5*s );
	add( Ellipse_<F>( P(2,1), 4*s, 2*s ), Type::Ellipse, "Ellipse", {{2,1}}, 4*s, 2*s );
	add( Ellipse_<F>( P(-3,4), 5*s, 1*s, 3.14159265358979323846/2 ), Type::Ellipse, "Ellipse", {{-3,4}}, 1*s, 5*s );
	add( FRect_<F>( P(0,0), P(3,5) ), Type::FRect, "FRect", {{0,0},{3,5}} );
	add( FRect_<F>( P(6,7), P(-2,1) ), Type::FRect, "FRect", {{6,7},{-2,1}} );
	add( CPolyline_<F>( std::vector<Point2d_<F>>{ P(0,0),P(5,1),P(2,4) } ), Type::CPolyline, "CPolyline", {{0,0},{5,1},{2,4}} );
	add( CPolyline_<F>( std::vector<Point2d_<F>>{ P(0,0),P(4,0),P(1,1),P(0,4) } ), Type::CPolyline, "CPolyline", {{0,0},{4,0},{1,1},{0,4}} );
	add( OPolyline_<F>( std::vector<Point2d_<F>>{ P(1,0),P(5,1),P(2,-4) } ), Type::OPolyline, "OPolyline", {{1,0},{5,1},{2,-4}} );
	add( OPolyline_<F>( std::vector<Point2d_<F>>{ P(3,0),P(-5,1) } ), Type::OPolyline, "OPolyline", {{3,0},{-5,1}} );
	add( CPolyline_<F>(), Type::CPolyline, "CPolyline", {} );
	add( OPolyline_<F>(), Type::OPolyline, "OPolyline", {} );
	return v;
}

static void same( const std::string& got, const std::string& want, const char* tag ) { check( got==want, tag, [&]{ return str( "expected ",want," got ",got ); } ); }

template<class F,class T> void unwrap( const CommonType_<F>& v, const Answers& a, const char* tn )
{
	bool ok = std::string(tn)==a.tn; std::string got; int th=0;
	step();
	try { T o = fct::VariantUnwrapper{v}; got=show(o); } catch( const std::exception& ) { th=1; }
	check( th==(ok?0:1), "unwrap", [&]{ return str( "asked for ",tn," from ",a.tn,": ",th?"threw":"returned "+got ); } );
	if( ok && !th ) same( got, a.text, "unwrap" );
	check( std::holds_alternative<T>(v)==ok, "alternative" );
}
template<class F> void agrees( const CommonType_<F>& v, const Answers& a )
{
	same( getString(type(v)), a.type, "type" ); same( getString( std::visit( fct::TypeFunct{}, v ) ), a.type, "type" );
	same( getString(dtype(v)), a.dtype, "dtype" ); same( getString( std::visit( fct::DTypeFunct{}, v ) ), a.dtype, "dtype" );
	same( val( [&]{ return length(v); } ), a.length, "length" ); same( val( [&]{ return std::visit( fct::LengthFunct{}, v ); } ), a.length, "length" );
	same( val( [&]{ return area(v); } ), a.area, "area" ); same( val( [&]{ return std::visit( fct::AreaFunct{}, v ); } ), a.area, "area" );
	same( val( [&]{ return size(v); } ), a.size, "size" ); same( val( [&]{ return std::visit( fct::SizeFunct{}, v ); } ), a.size, "size" );
	same( val( [&]{ return ptTxt( getBB(v) ); } ), a.bb, "getBB" ); same( val( [&]{ return ptTxt( std::visit( fct::BBFunct{}, v ) ); } ), a.bb, "getBB" );
	same( std::visit( []( const auto& o ){ return show(o); }, v ), a.text, "content" );
	same( std::visit( []( const auto& o ){ return query(o); }, v ), a.query, "query" );
	auto d=dps();
	for( size_t i=0;i<=d.size();i++ )
		same( svg( [&](auto& im){ if( i<d.size() ) { fct::DrawFunct vde( im, d[i] ); std::visit( vde, v ); } else { fct::DrawFunct vde( im ); std::visit( vde, v ); } } ), a.draw[i], "draw" );
	auto hs=homs<F>();
	for( size_t k=0;k<hs.size();k++ )
	{
		auto txt=[&]( auto&& mk ){ return val( [&]{ return std::visit( []( const auto& o ){ return show(o); }, mk() ); } ); };
		same( txt( [&]{ return transform( hs[k], v ); } ), a.trans[k], "transform" );
		same( txt( [&]{ fct::TransformFunct tf( hs[k] ); return std::visit( tf, v ); } ), a.trans[k], "transform functor" );
		// documented use: the functor built from a temporary
		same( txt( [&]{ fct::TransformFunct tf( Homogr_<F>( hs[k] ) ); clobber(); return std::visit( tf, v ); } ), a.trans[k], "transform functor from temporary" );
	}
	unwrap<F,Segment_<F>>(v,a,"Segment"); unwrap<F,OSegment_<F>>(v,a,"OSegment"); unwrap<F,Point2d_<F>>(v,a,"Point2d"); unwrap<F,Line2d_<F>>(v,a,"Line2d");
	unwrap<F,Circle_<F>>(v,a,"Circle"); unwrap<F,Ellipse_<F>>(v,a,"Ellipse"); unwrap<F,FRect_<F>>(v,a,"FRect"); unwrap<F,CPolyline_<F>>(v,a,"CPolyline"); unwrap<F,OPolyline_<F>>(v,a,"OPolyline");
}
#ifdef HOMOG2D_ENABLE_PRTP
template<class T> void down( const std::shared_ptr<rtp::Root>& r, const Answers& a, const char* tn, const char* dt )
{
	bool ok = std::string(tn)==a.tn && a.dtype==dt; auto p=std::dynamic_pointer_cast<T>(r);
	check( bool(p)==ok, "downcast" ); if( p && ok ) same( show(*p), a.text, "downcast" );
}
template<class F> void downs( const std::shared_ptr<rtp::Root>& r, const Answers& a )
{
	const char* d=getString( sizeof(F)==4?Dtype::Float:(sizeof(F)==8?Dtype::Double:Dtype::LongDouble) );
	down<Segment_<F>>(r,a,"Segment",d); down<OSegment_<F>>(r,a,"OSegment",d); down<Point2d_<F>>(r,a,"Point2d",d); down<Line2d_<F>>(r,a,"Line2d",d); down<Circle_<F>>(r,a,"Circle",d);
	down<Ellipse_<F>>(r,a,"Ellipse",d); down<FRect_<F>>(r,a,"FRect",d); down<CPolyline_<F>>(r,a,"CPolyline",d); down<OPolyline_<F>>(r,a,"OPolyline",d);
}
static void agreesRoot( const std::shared_ptr<rtp::Root>& r, const Answers& a, bool casts )
{
	same( getString(r->type()), a.type, "root type" );
	same( val( [&]{ return r->length(); } ), a.length, "root length" ); same( val( [&]{ return r->area(); } ), a.area, "root area" ); same( val( [&]{ return r->size(); } ), a.size, "root size" );
	same( getString(type(*r)), a.type, "root free type" );
	same( val( [&]{ return length(*r); } ), a.length, "root free length" ); same( val( [&]{ return area(*r); } ), a.area, "root free area" ); same( val( [&]{ return size(*r); } ), a.size, "root free size" );
	auto d=dps();
	for( size_t i=0;i<=d.size();i++ ) same( svg( [&](auto& im){ if( i<d.size() ) r->draw(im,d[i]); else r->draw(im); } ), a.draw[i], "root draw" );
	same( val( [&]()->const rtp::Root&{ return *r; } ), "type="+a.type+"\n"+a.text, "root stream" );
	if( casts ) { downs<float>(r,a); downs<double>(r,a); downs<long double>(r,a); }
}
#endif

template<class F> std::string names( const std::vector<Item<F>>& it, const std::vector<int>& q ) { std::string s; for( int k: q ) s += it[k].a.text+"; "; return s; }

template<class F> void explore( const geo::Emb& em, const char* tn )
{
	auto it=items<F>( em ); const int n=it.size();
	auto D=[&]( const std::vector<int>& q ){ return str( tn,' ',em.name,": ",names(it,q) ); };
	section( str("single/",tn) );
	for( int i=0;i<n;i++ )
		run( [&]{ agrees<F>( it[i].var, it[i].a ); CommonType_<F> c(it[i].var); agrees<F>( c, it[i].a ); PRTP( agreesRoot( it[i].root, it[i].a, true ); ) outcome( std::hash<std::string>()( it[i].a.all() ) ); }, [&]{ return D({i}); } );

	// one variant, successively given other objects (changing kind), in place transforms in between
	section( str("history/",tn) );
	for( int i=0;i<n;i++ ) for( int j=0;j<n;j++ ) for( int how=0; how<3; how++ )
		run( [&]{
			CommonType_<F> v( it[i].var ); auto hs=homs<F>();
			auto txt=[&]{ return std::visit( []( const auto& o ){ return show(o); }, v ); };
			for( size_t k=0;k<hs.size();k++ )
			{
				v=it[i].var; std::string r=val( [&]{ v=transform( hs[k], v ); return txt(); } );
				same( r, it[i].a.trans[k], "transform in place" );
				if( r=="<throws>" ) { same( txt(), it[i].a.text, "object after failed transform" ); continue; }
				if( how==0 ) for( size_t l=0;l<hs.size();l++ ) { auto keep=v; same( val( [&]{ v=transform( hs[l], v ); return txt(); } ), it[i].a.trans2[k*hs.size()+l], "transform twice" ); v=keep; }
				if( how==1 ) { v=it[j].var; agrees<F>( v, it[j].a ); }
				if( how==2 ) { CommonType_<F> w( it[j].var ); std::swap( v, w ); agrees<F>( v, it[j].a ); same( std::visit( []( const auto& o ){ return show(o); }, w ), it[i].a.trans[k], "swapped" ); }
			}
			outcome( std::hash<std::string>()( txt() ) );
		}, [&]{ return str( D({i,j})," how=",how ); } );

	// containers
	section( str("containers/",tn) );
	const int len = thorough()?4:3;
	std::vector<int> q;
	std::function<void()> rec=[&]
	{
		if( !q.empty() ) run( [&]{
			std::vector<CommonType_<F>> v; std::list<CommonType_<F>> l; for( int k: q ) { v.push_back( it[k].var ); l.emplace_back( it[k].var ); }
			auto d=dps(); auto hs=homs<F>();
			for( size_t i=0;i<=d.size();i++ )
			{
				std::string want; for( int k: q ) want += it[k].a.draw[i];
				auto go=[&]( auto& c ){ return svg( [&](auto& im){ if( i<d.size() ) draw( im, c, d[i] ); else draw( im, c ); } ); };
				same( go(v), want, "draw container" ); same( go(l), want, "draw container" );
				same( svg( [&](auto& im){ for( auto& e: v ) { if( i<d.size() ) { fct::DrawFunct vde(im,d[i]); std::visit(vde,e); } else { fct::DrawFunct vde(im); std::visit(vde,e); } } } ), want, "draw loop" );
			}
			size_t c=0; for( auto& e: l ) { auto& a=it[q[c++]].a; same( getString(type(e)), a.type, "type" ); same( val( [&]{ return area(e); } ), a.area, "area" ); same( val( [&]{ return length(e); } ), a.length, "length" ); same( val( [&]{ return size(e); } ), a.size, "size" ); }
			// bounding box of the container: all elements that have an extent
			double x0=1e30,y0=1e30,x1=-1e30,y1=-1e30; bool any=false;
			for( int k: q ) if( it[k].a.hasExt ) { auto& a=it[k].a; any=true; x0=std::min(x0,a.x0); x1=std::max(x1,a.x1); y0=std::min(y0,a.y0); y1=std::max(y1,a.y1); }
			if( !any ) { check( thrown( [&]{ getBB(v); } )==1, "getBB of container without extent" ); }
			else if( x1-x0>0.1*em.s && y1-y0>0.1*em.s )
			{
				bool circ=false; for( int k: q ) if( it[k].a.t==Type::Ellipse ) circ=true;
				double tol = ( sizeof(F)==4 ? 1e-5 : 1e-12 )*( circ?1e4:1 )*( 1+std::fabs(x0)+std::fabs(x1)+std::fabs(y0)+std::fabs(y1) );
				auto cmp=[&]( auto& c ){ auto b=getBB(c).getPts(); step(); check( std::fabs(b.first.getX()-x0)<=tol && std::fabs(b.first.getY()-y0)<=tol && std::fabs(b.second.getX()-x1)<=tol && std::fabs(b.second.getY()-y1)<=tol, "getBB of container", [&]{ return str( b.first,b.second," expected ",x0,',',y0,' ',x1,',',y1 ); } ); };
				cmp(v); cmp(l);
			}
			// transforming in place, with one functor for all the elements
			for( size_t k=1;k<hs.size();k++ )
			{
				auto w=v; auto u=v; fct::TransformFunct tf( Homogr_<F>( hs[k] ) ); clobber();
				for( size_t i=0;i<w.size();i++ )
				{
					auto want=it[q[i]].a.trans[k];
					same( val( [&]{ w[i]=std::visit( tf, w[i] ); return std::visit( []( const auto& o ){ return show(o); }, w[i] ); } ), want, "transform loop with functor" );
					same( val( [&]{ u[i]=transform( hs[k], u[i] ); return std::visit( []( const auto& o ){ return show(o); }, u[i] ); } ), want, "transform loop" );
				}
			}
#ifdef HOMOG2D_ENABLE_PRTP
			std::vector<std::shared_ptr<rtp::Root>> r; for( int k: q ) r.push_back( it[k].root );
			std::string got,want; for( auto& e: r ) got+=val( [&]()->const rtp::Root&{ return *e; } ); for( int k: q ) want += "type="+it[k].a.type+"\n"+it[k].a.text;
			same( got, want, "root stream in container" );
			for( size_t i=0;i<d.size();i++ ) { std::string w; for( int k: q ) w+=it[k].a.draw[i]; same( svg( [&](auto& im){ for( auto& e: r ) e->draw( im, d[i] ); } ), w, "root draw in container" ); }
#endif
			outcome( std::hash<std::string>()( names(it,q) ) );
		}, [&]{ return D(q); } );
		if( (int)q.size()<len ) for( int k=0;k<n;k++ ) { if( len==4 && q.size()==3 && k%2 ) continue; q.push_back(k); rec(); q.pop_back(); }
	};
	rec();
	if( len>1 ) for( int m: {8,9,12,13,17,33} ) for( int o=0;o<n;o++ ) for( int st: {0,1,5} ) { if( m>9 && !mc::thorough() && o%4 ) continue; q.clear(); for( int i=0;i<std::max(m,len);i++ ) q.push_back( (o+i*st)%n ); rec(); }
}

#ifdef HOMOG2D_ENABLE_PRTP
/// pointers allow different floating point types in the same container
static void mixed( const geo::Emb& em )
{
	auto f=items<float>(em); auto d=items<double>(em); auto l=items<long double>(em);
	std::vector<std::pair<std::shared_ptr<rtp::Root>,Answers*>> all;
	for( auto& x: f ) all.push_back({x.root,&x.a}); for( auto& x: d ) all.push_back({x.root,&x.a}); for( auto& x: l ) all.push_back({x.root,&x.a});
	section("mixed pointers");
	for( size_t i=0;i<all.size();i++ ) for( size_t j=0;j<all.size();j++ )
		run( [&]{ std::vector<std::shared_ptr<rtp::Root>> v{ all[i].first, all[j].first }; agreesRoot( v[0], *all[i].second, false ); agreesRoot( v[1], *all[j].second, true ); v[0]=v[1]; agreesRoot( v[0], *all[j].second, false ); },
		     [&]{ return str( em.name,' ',all[i].second->dtype,' ',all[i].second->text,"; ",all[j].second->dtype,' ',all[j].second->text ); } );
}
#endif

int main( int argc, char** argv )
{
	init( argc, argv );
	size_t k=0;
	for( auto& em: geo::embeddings() )
	{
		bool base = k++==0;
		if( base || thorough() || k==4 ) { explore<double>( em, "double" ); }
		if( base || thorough() ) { explore<float>( em, "float" ); explore<long double>( em, "long double" ); }
		PRTP( if( base || thorough() ) mixed( em ); )
	}
	return finish();
}
