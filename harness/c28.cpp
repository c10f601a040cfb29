// C28: drawing parameters, defaults and images follow the calls made.
// Histories of parameter objects are compared with a plain record of values; what a parameter object holds is observed through
// what drawing calls emit, read back by a small reader of the emitted elements.
#include "geo.hpp"
#include "homog2d.hpp"
#include <list>
#include <fstream>
using namespace mc; using namespace h2d;
typedef img::Image<img::SvgImage> Im;

// ---------------------------------------------------------------- elements emitted
struct Elem { std::string name, text; std::map<std::string,std::string> at; std::string raw; bool dupAttr=false; };
static std::vector<Elem> parse( const std::string& s )
{
	std::vector<Elem> v; size_t i=0;
	while( (i=s.find('<',i))!=std::string::npos )
	{
		size_t e=s.find('>',i); if( e==std::string::npos ) { fail( "emitted text", s ); return v; }
		std::string t=s.substr(i+1,e-i-1); size_t next=e+1;
		if( t[0]!='/' && t!="g" )
		{
			Elem el; el.raw=t; size_t k=0; while( k<t.size() && (isalnum(t[k])||t[k]=='-') ) k++; el.name=t.substr(0,k);
			while( k<t.size() )
			{
				size_t q=t.find("=\"",k); if( q==std::string::npos ) break; size_t z=t.find('"',q+2); if( z==std::string::npos ) { fail( "emitted text", t ); break; }
				std::string key=t.substr(k,q-k); key.erase( 0, key.find_first_not_of(" \n") );
				if( el.at.count(key) ) el.dupAttr=true;
				el.at[key]=t.substr(q+2,z-q-2); k=z+1;
			}
			if( el.name=="text" ) { size_t z=s.find("</text>",e); el.text=s.substr(e+1,z-e-1); next=z+7; }
			v.push_back(el);
		}
		i=next;
	}
	return v;
}
static double num( const Elem& e, const char* k ) { auto it=e.at.find(k); return it==e.at.end() ? NAN : atof(it->second.c_str()); }
static std::string get( const Elem& e, const char* k ) { auto it=e.at.find(k); return it==e.at.end() ? "<absent>" : it->second; }

// ---------------------------------------------------------------- model
struct M
{
	int r=80,g=80,b=80, th=1, ps=4, delta=5, style=0; bool sp=false, si=false, sa=false; int fs=20; std::string attr;
	auto tie() const { return std::tie(r,g,b,th,ps,delta,style,sp,si,sa,fs,attr); }
	bool operator<( const M& o ) const { return tie()<o.tie(); }
	std::string rgb() const { return str("rgb(",r,',',g,',',b,')'); }
	std::string hex() const { char c[16]; snprintf(c,16,"#%02x%02x%02x",r,g,b); return c; }
	bool fill() const { return attr.find("fill=")!=std::string::npos; }
	std::string txt() const { return str( rgb()," th=",th," size=",ps,'/',delta," style=",style,' ',sp,si,sa," font=",fs," attr=",attr ); }
};
static img::DrawParams build( const M& m )
{
	img::DrawParams d; d.setColor( m.r,m.g,m.b ).setThickness(m.th).setPointStyle( (img::PtStyle)m.style ).showPoints(m.sp).showIndex(m.si).showAngles(m.sa).setFontSize(m.fs).setAttrString(m.attr);
	if( m.ps==m.delta ) d.setPointSize( m.ps );
	return d;
}
static const std::vector<IP> PL{ {10,10},{40,12},{20,35} };
static std::vector<Point2d> pl() { std::vector<Point2d> v; for( auto& p: PL ) v.emplace_back( p.x, p.y ); return v; }
template<class F> std::string emit( F&& f ) { step(); Im im(60,50); f(im); return im.getReal()._svgString.str(); }

/// what one parameter object makes the drawing calls emit (one text per object drawn)
static std::vector<std::string> scene( const img::DrawParams& d )
{
	std::vector<std::string> v;
	v.push_back( emit( [&](Im& im){ Circle(20,21,7).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ FRect(5,6,17,19).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ Ellipse(20,21,7,3).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ Segment(12,13,31,29).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ Point2d(30,25).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ CPolyline c(pl()); c.draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ OPolyline c(pl()); c.draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ im.drawText( "hello", Point2dF(11,12), d ); } ) );
	v.push_back( emit( [&](Im& im){ Line2d( Point2d(0,5), Point2d(59,30) ).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ OSegment(12,13,41,29).draw(im,d); } ) );
	v.push_back( emit( [&](Im& im){ draw( im, pl(), d ); } ) );
	v.push_back( emit( [&](Im& im){ std::vector<Segment> s{ Segment(1,2,3,4), Segment(9,2,30,40) }; draw( im, s, d ); } ) );
	return v;
}
/// the same drawing calls without parameters
static std::vector<std::string> sceneDefault()
{
	std::vector<std::string> v;
	v.push_back( emit( [&](Im& im){ Circle(20,21,7).draw(im); } ) );
	v.push_back( emit( [&](Im& im){ draw( im, FRect(5,6,17,19) ); } ) );
	v.push_back( emit( [&](Im& im){ im.draw( Ellipse(20,21,7,3) ); } ) );
	v.push_back( emit( [&](Im& im){ Segment(12,13,31,29).draw(im); } ) );
	v.push_back( emit( [&](Im& im){ draw( im, Point2d(30,25) ); } ) );
	v.push_back( emit( [&](Im& im){ CPolyline c(pl()); c.draw(im); } ) );
	v.push_back( emit( [&](Im& im){ OPolyline c(pl()); im.draw(c); } ) );
	v.push_back( emit( [&](Im& im){ drawText( im, "hello", Point2d(11,12) ); } ) );
	v.push_back( emit( [&](Im& im){ draw( im, Line2d( Point2d(0,5), Point2d(59,30) ) ); } ) );
	v.push_back( emit( [&](Im& im){ OSegment(12,13,41,29).draw(im); } ) );
	v.push_back( emit( [&](Im& im){ draw( im, pl() ); } ) );
	v.push_back( emit( [&](Im& im){ std::vector<Segment> s{ Segment(1,2,3,4), Segment(9,2,30,40) }; draw( im, s ); } ) );
	return v;
}
// ---------------------------------------------------------------- reading the values back
static void stroke( const Elem& e, const M& m, const char* tag )
{
	check( get(e,"stroke")==m.rgb(), tag, [&]{ return str( "stroke color, expected ",m.rgb()," in ",e.raw ); } );
	check( get(e,"stroke-width")==str(m.th), tag, [&]{ return str( "stroke width, expected ",m.th," in ",e.raw ); } );
}
static void shapeAttr( const Elem& e, const M& m, const char* tag )
{
	stroke( e, m, tag );
	check( !e.dupAttr, tag, [&]{ return "attribute given twice: "+e.raw; } );
	check( m.fill() ? get(e,"fill")!="none" : get(e,"fill")=="none", tag, [&]{ return str( "fill: ",e.raw ); } );
	check( m.attr.empty() || e.raw.find(m.attr)!=std::string::npos, tag, [&]{ return str( "attributes: ",e.raw ); } );
	check( !m.attr.empty() || ( e.raw.find("opacity")==std::string::npos && e.raw.find("red")==std::string::npos ), tag, [&]{ return str( "attributes of another call: ",e.raw ); } );
}
/// elements of a point symbol: consumes them from index i
static void symbol( const std::vector<Elem>& v, size_t& i, double x, double y, const M& m, const char* tag )
{
	if( m.style==5 )
	{
		if( !check( i<v.size() && v[i].name=="circle" && num(v[i],"cx")==x && num(v[i],"cy")==y && num(v[i],"r")==m.ps, tag, [&]{ return str( "dot expected at ",x,',',y ); } ) ) { i=v.size()+99; return; }
		shapeAttr( v[i++], m, tag ); return;
	}
	double d=m.delta, e=std::round(0.7*d); typedef std::array<double,4> L; std::vector<L> want;
	auto add=[&]( double a, double b, double c, double f ){ want.push_back( L{ x+a,y+b,x+c,y+f } ); };
	switch( m.style )
	{
		case 0: add(-d,0,d,0); add(0,-d,0,d); break;
		case 1: add(-e,e,e,-e); add(-e,-e,e,e); break;
		case 2: add(-d,0,d,0); add(0,-d,0,d); add(-e,e,e,-e); add(-e,-e,e,e); break;
		case 3: add(-d,0,0,-d); add(0,-d,d,0); add(d,0,0,d); add(-d,0,0,d); break;
		case 4: add(-e,e,e,e); add(e,e,e,-e); add(e,-e,-e,-e); add(-e,-e,-e,e); break;
	}
	auto norm=[]( L l ){ if( l[0]>l[2] || (l[0]==l[2] && l[1]>l[3]) ) { std::swap(l[0],l[2]); std::swap(l[1],l[3]); } return l; };
	std::multiset<L> W,G; for( auto& l: want ) W.insert(norm(l));
	for( size_t k=0;k<want.size();k++,i++ )
	{
		if( !check( i<v.size() && v[i].name=="line", tag, [&]{ return str( "point symbol incomplete at ",x,',',y ); } ) ) { i=v.size()+99; return; }
		G.insert( norm( L{ num(v[i],"x1"),num(v[i],"y1"),num(v[i],"x2"),num(v[i],"y2") } ) ); stroke( v[i], m, tag );
	}
	check( W==G, tag, [&]{ return str( "point symbol style ",m.style," size ",m.delta," at ",x,',',y ); } );
}
static void verify( const std::vector<std::string>& s, const M& m )
{
	auto one=[&]( int k, const char* name ) { auto v=parse(s[k]); if( check( v.size()==1 && v[0].name==name, name, [&]{ return str("expected a single ",name,", got ",s[k]); } ) ) shapeAttr( v[0], m, name ); };
	one(0,"circle"); one(1,"rect"); one(2,"ellipse");
	auto segs=[&]( int k, const char* tag, std::vector<std::array<double,4>> want, bool points, bool index )
	{
		auto v=parse(s[k]); size_t i=0; M m2=m; m2.sp=false;
		for( size_t w=0; w<want.size(); w++ )
		{
			auto& l=want[w];
			if( !check( i<v.size() && v[i].name=="line", tag, [&]{ return str("line expected: ",s[k]); } ) ) return;
			check( num(v[i],"x1")==l[0] && num(v[i],"y1")==l[1] && num(v[i],"x2")==l[2] && num(v[i],"y2")==l[3], tag, [&]{ return str("line: ",v[i].raw); } );
			stroke( v[i], m, tag ); check( m.attr.empty() || v[i].raw.find(m.attr)!=std::string::npos, tag, "attributes" ); i++;
			if( points ) { symbol( v,i,l[0],l[1],m2,tag ); symbol( v,i,l[2],l[3],m2,tag ); }
			if( index ) { if( !check( i<v.size() && v[i].name=="text" && v[i].text==str(w) && get(v[i],"font-size")==str(m.fs,"px") && get(v[i],"fill")==m.hex(), tag, [&]{ return str("index: ",s[k]); } ) ) return; i++; }
		}
		check( i==v.size(), tag, [&]{ return str( "extra elements: ",s[k] ); } );
	};
	segs( 3, "segment", { {12,13,31,29} }, m.sp, false );
	{ auto v=parse(s[4]); size_t i=0; symbol( v,i,30,25,m,"point" ); check( i==v.size(), "point", [&]{ return s[4]; } ); }
	for( int k: {5,6} )
	{
		bool cl=k==5; const char* tag=cl?"polygon":"polyline"; auto v=parse(s[k]); size_t i=0;
		if( !check( !v.empty() && v[0].name==tag, tag, [&]{ return s[k]; } ) ) continue;
		shapeAttr( v[0], m, tag );
		{ std::istringstream is( get(v[0],"points") ); std::multiset<std::pair<double,double>> a,b; double x,y; char c; while( is>>x>>c>>y ) a.insert({x,y}); for( auto& p: PL ) b.insert({(double)p.x,(double)p.y}); check( a==b, tag, [&]{ return v[0].raw; } ); }
		i=1;
		if( m.si ) for( size_t n=0;n<PL.size();n++,i++ ) if( !check( i<v.size() && v[i].name=="text" && v[i].text==str(n) && num(v[i],"x")==PL[n].x && num(v[i],"y")==PL[n].y, tag, [&]{ return str("vertex index ",n,": ",s[k]); } ) ) break;
		if( m.sp ) for( auto& p: PL ) symbol( v,i,p.x,p.y,m,tag );
		if( m.sa )
		{
			std::map<std::pair<double,double>,double> at; size_t n=PL.size();
			for( ; i<v.size() && v[i].name=="text"; i++ )
			{
				at[{num(v[i],"x"),num(v[i],"y")}]=atof( v[i].text.c_str() );
				check( get(v[i],"font-size")==str(m.fs,"px") && get(v[i],"fill")==m.hex(), tag, [&]{ return str("angle label does not have the font size and color of the call: ",v[i].raw); } );
			}
			check( at.size()==( cl ? n : n-2 ), tag, [&]{ return str("angle labels: ",at.size()," ",s[k]); } );
			for( auto& a: at )
			{
				bool ok=false;
				for( size_t j=0;j<n;j++ ) if( PL[j].x==a.first.first && PL[j].y==a.first.second )
				{ IP p=PL[(j+n-1)%n], q=PL[j], r=PL[(j+1)%n]; double x1=q.x-p.x,y1=q.y-p.y,x2=r.x-q.x,y2=r.y-q.y; double t=std::atan2( x1*y2-x2*y1, x1*x2+y1*y2 )*180/std::acos(-1.); ok=std::fabs(std::fabs(t)-std::fabs(a.second))<1e-3; }
				check( ok, tag, [&]{ return str("angle label ",a.second," at ",a.first.first,',',a.first.second); } );
			}
		}
		check( i==v.size(), tag, [&]{ return str( "extra elements: ",s[k] ); } );
	}
	{ auto v=parse(s[7]); check( v.size()==1 && v[0].name=="text" && v[0].text=="hello" && num(v[0],"x")==11 && num(v[0],"y")==12 && get(v[0],"font-size")==str(m.fs,"px") && get(v[0],"fill")==m.hex(), "text", [&]{ return s[7]; } ); }
	segs( 8, "line", { {0,5,59,30} }, false, false );
	{ auto v=parse(s[9]); check( v.size()==4, "osegment", [&]{ return s[9]; } ); for( auto& e: v ) { check( e.name=="line", "osegment" ); stroke( e, m, "osegment" ); } if( v.size()==4 ) check( m.attr.empty() || v[0].raw.find(m.attr)!=std::string::npos, "osegment", "attributes" ); }
	{
		auto v=parse(s[10]); size_t i=0;
		for( size_t n=0;n<PL.size();n++ )
		{
			symbol( v,i,PL[n].x,PL[n].y,m,"points" );
			if( m.si ) { if( !check( i<v.size() && v[i].name=="text" && v[i].text==str(n), "points", [&]{ return str("index: ",s[10]); } ) ) break; i++; }
		}
		check( i==v.size(), "points", [&]{ return str( "extra elements: ",s[10] ); } );
	}
	segs( 11, "segments", { {1,2,3,4},{9,2,30,40} }, m.sp, m.si );
}
/// expected texts for given values: built once on a fresh object, and read back against the plain numbers
static const std::vector<std::string>& expected( const M& m )
{
	static std::map<M,std::vector<std::string>> memo;
	auto it=memo.find(m); if( it!=memo.end() ) return it->second;
	img::DrawParams keep; img::DrawParams::resetDefault(); auto s=scene( build(m) ); keep.setDefault();
	verify( s, m );
	return memo[m]=s;
}
static void holds( const img::DrawParams& d, const M& m, const char* tag )
{
	auto& e=expected(m); auto s=scene(d);
	for( size_t i=0;i<e.size();i++ ) check( s[i]==e[i], tag, [&]{ return str( "values expected: ",m.txt(),"; emitted ",s[i]," instead of ",e[i] ); } );
	check( d.color().r==m.r && d.color().g==m.g && d.color().b==m.b, tag, "color()" );
}

// ---------------------------------------------------------------- histories
struct World { img::DrawParams d[2]; M m[2], def; };
struct Op { std::string name; std::function<void(World&)> f; };
static std::vector<Op> ops()
{
	std::vector<Op> v;
	for( int i=0;i<2;i++ )
	{
		auto S=[&]( const char* n, std::function<void(img::DrawParams&,M&)> f ){ v.push_back( { str('d',i,'.',n), [f,i](World& w){ step(); f( w.d[i], w.m[i] ); } } ); };
		S( "setColor(10,20,30)", []( auto& d, M& m ){ d.setColor(10,20,30); m.r=10; m.g=20; m.b=30; } );
		S( "setColor(Color(200,0,255))", []( auto& d, M& m ){ d.setColor( img::Color(200,0,255) ); m.r=200; m.g=0; m.b=255; } );
		S( "setThickness(7)", []( auto& d, M& m ){ d.setThickness(7); m.th=7; } );
		S( "setPointSize(3)", []( auto& d, M& m ){ d.setPointSize(3); m.ps=m.delta=3; } );
		S( "setPointSize(8)", []( auto& d, M& ){ check( thrown( [&]{ d.setPointSize(8); } )==1, "even point size" ); } );
		S( "setPointStyle(Dot)", []( auto& d, M& m ){ d.setPointStyle(img::PtStyle::Dot); m.style=5; } );
		S( "setPointStyle(Squ)", []( auto& d, M& m ){ d.setPointStyle(img::PtStyle::Squ); m.style=4; } );
		S( "setPointStyle(Star)", []( auto& d, M& m ){ d.setPointStyle(img::PtStyle::Star); m.style=2; } );
		S( "setPointStyle(6)", []( auto& d, M& ){ check( thrown( [&]{ d.setPointStyle((img::PtStyle)6); } )==1, "invalid point style" ); } );
		S( "showPoints()", []( auto& d, M& m ){ d.showPoints(); m.sp=true; } );
		S( "showPoints(false)", []( auto& d, M& m ){ d.showPoints(false); m.sp=false; } );
		S( "showIndex()", []( auto& d, M& m ){ d.showIndex(); m.si=true; } );
		S( "showIndex(false)", []( auto& d, M& m ){ d.showIndex(false); m.si=false; } );
		S( "showAngles()", []( auto& d, M& m ){ d.showAngles(); m.sa=true; } );
		S( "showAngles(false)", []( auto& d, M& m ){ d.showAngles(false); m.sa=false; } );
		S( "setFontSize(33)", []( auto& d, M& m ){ d.setFontSize(33); m.fs=33; } );
		S( "setFontSize(1)", []( auto& d, M& ){ check( thrown( [&]{ d.setFontSize(1); } )==1, "invalid font size" ); } );
		S( "setAttrString(fill)", []( auto& d, M& m ){ d.setAttrString("fill=\"red\""); m.attr="fill=\"red\""; } );
		S( "setAttrString(opacity)", []( auto& d, M& m ){ d.setAttrString("opacity=\"0.5\""); m.attr="opacity=\"0.5\""; } );
		S( "setAttrString()", []( auto& d, M& m ){ d.setAttrString(""); m.attr=""; } );
		S( "chain", []( auto& d, M& m ){ d.setColor(1,2,3).setThickness(2).setPointStyle(img::PtStyle::Diam).setPointSize(5).setFontSize(9).showPoints(); m.r=1; m.g=2; m.b=3; m.th=2; m.style=3; m.ps=m.delta=5; m.fs=9; m.sp=true; } );
		S( "selectPoint()", []( auto& d, M& ){ d.selectPoint(); } );
		S( "draw all", []( auto& d, M& ){ scene(d); } );
		v.push_back( { str('d',i,".setDefault()"), [i](World& w){ step(); w.d[i].setDefault(); w.def=w.m[i]; } } );
		v.push_back( { str('d',i,"=DrawParams()"), [i](World& w){ step(); w.d[i]=img::DrawParams(); w.m[i]=w.def; } } );
		v.push_back( { str('d',i,"=d",1-i), [i](World& w){ step(); w.d[i]=w.d[1-i]; w.m[i]=w.m[1-i]; } } );
	}
	v.push_back( { "resetDefault()", [](World& w){ step(); img::DrawParams::resetDefault(); w.def=M(); } } );
	v.push_back( { "temporary.setDefault()", [](World& w){ step(); img::DrawParams().setColor(7,8,9).setThickness(4).setDefault(); w.def.r=7; w.def.g=8; w.def.b=9; w.def.th=4; } } );
	v.push_back( { "draw without parameters", [](World&){ sceneDefault(); } } );
	return v;
}

static void histories( int depth, bool reduced )
{
	auto o=ops(); section( reduced ? "histories (longer)" : "histories" );
	if( reduced )   // of the second object, only a few setters and the copies
	{
		std::vector<Op> r; for( auto& x: o ) if( x.name.compare(0,3,"d1.")!=0 || x.name=="d1.setThickness(7)" || x.name=="d1.chain" || x.name=="d1.setDefault()" || x.name=="d1.showAngles()" || x.name=="d1.draw all" ) r.push_back(x);
		o=r;
	}
	const int n=o.size();
	std::vector<int> q;
	std::function<void()> rec=[&]
	{
		if( (int)q.size()==depth || q.empty() )
			run( [&]{
				img::DrawParams::resetDefault(); World w;
				for( int k: q ) o[k].f(w);
				holds( w.d[0], w.m[0], "d0" ); holds( w.d[1], w.m[1], "d1" ); img::DrawParams f; holds( f, w.def, "new object" );
				auto s=sceneDefault(); auto& e=expected(w.def); for( size_t i=0;i<e.size();i++ ) check( s[i]==e[i], "drawing without parameters", [&]{ return str( "values expected: ",w.def.txt(),"; emitted ",s[i]," instead of ",e[i] ); } );
				img::DrawParams c(w.d[0]); holds( c, w.m[0], "copy" ); holds( w.d[0], w.m[0], "d0 again" );
				outcome( std::hash<std::string>()( w.m[0].txt()+w.m[1].txt()+w.def.txt() ) ); img::DrawParams::resetDefault();
			}, [&]{ std::string s; for( int k: q ) s+=o[k].name+"; "; return s; } );
		if( (int)q.size()<depth ) for( int k=0;k<n;k++ ) { q.push_back(k); rec(); q.pop_back(); }
	};
	rec();
}

/// every combination of the flags, styles, sizes, on one object
// the pseudo-random choices of genRandomColors(): all sequences over five values
static std::vector<int> randSeq; static size_t randPos=0;
extern "C" int rand( void ) noexcept { return randSeq.empty() ? 0 : randSeq[ randPos++ % randSeq.size() ]; }
static void colors()
{
	section("colors");
	const int R[]={ 0, 1, RAND_MAX/3, RAND_MAX-1, RAND_MAX };
	for( int lo: {0,1,20,100,254} ) for( int hi: {0,1,2,20,21,250,255} ) for( int nb=0;nb<=2;nb++ ) for( int code=0;code<125;code++ )
		run( [&]{
			randSeq={ R[code%5], R[code/5%5], R[code/25] }; randPos=0; std::vector<img::Color> v; step();
			int t=thrown( [&]{ v=img::genRandomColors( nb, lo, hi ); } ); check( t==(hi>lo?0:1), "exception", [&]{ return str(t); } ); if( t ) return;
			if( !check( (int)v.size()==nb, "count" ) ) return;
			for( auto& c: v ) check( c.r>=lo && c.r<=hi && c.g>=lo && c.g<=hi && c.b>=lo && c.b<=hi, "range", [&]{ return str( (int)c.r,' ',(int)c.g,' ',(int)c.b ); } );
			if( nb ) { auto f=[&]( int k ){ return (int)( 1.0*R[k]/RAND_MAX*(hi-lo)+lo ); }; auto near=[]( int a, int b ){ return std::abs(a-b)<=1; }; std::array<int,3> a{v[0].r,v[0].g,v[0].b}, b{f(code%5),f(code/5%5),f(code/25)}; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); check( near(a[0],b[0]) && near(a[1],b[1]) && near(a[2],b[2]), "color", "not spread over the range" ); outcome( mix(v[0].r,mix(v[0].g,v[0].b)) ); }
		}, [&]{ return str( nb," colors ",lo,"..",hi," choices ",code ); } );
}
static void values()
{
	section("values");
	for( int style=0; style<6; style++ ) for( int flags=0; flags<8; flags++ ) for( int size: {0,1,3,9,21,255} ) for( const char* at: {"","fill=\"red\"","opacity=\"0.5\"","opacity=\"0.5\" fill=\"rgb(1,2,3)\""} ) for( int th: {0,1,255} )
		run( [&]{
			img::DrawParams::resetDefault(); M m; m.style=style; m.sp=flags&1; m.si=flags&2; m.sa=flags&4; m.attr=at; m.th=th; m.r=th; m.g=255; m.b=0; m.fs=2+size;
			if( size ) m.ps=m.delta=size;
			auto d=build(m); holds( d, m, "values" ); outcome( std::hash<std::string>()( m.txt() ) );
		}, [&]{ return str("style ",style," flags ",flags," size ",size," attr ",at," th ",th); } );
	section("setter arguments");
	for( int v=0; v<256; v++ )
		run( [&]{
			img::DrawParams::resetDefault(); img::DrawParams d; M m; d.setThickness(3); m.th=3;
			int t=thrown( [&]{ d.setPointSize(v); } ); check( t==(v%2?0:1), "setPointSize" ); if( v%2 ) m.ps=m.delta=v;
			t=thrown( [&]{ d.setPointStyle((img::PtStyle)v); } ); check( t==(v<6?0:1), "setPointStyle" ); if( v<6 ) m.style=v;
			d.setColor( v, 255-v, (v*7)%256 ); m.r=v; m.g=255-v; m.b=(v*7)%256; d.setThickness(v); m.th=v;
			int f=v-5; t=thrown( [&]{ d.setFontSize(f); } ); check( t==(f>1?0:1), "setFontSize" ); if( f>1 ) m.fs=f;
			holds( d, m, "values" ); outcome(v);
		}, [&]{ return str(v); } );
}

/// images: size, content, clear, writing; containers and pairs
static void images()
{
	section("images");
	struct IOp { std::string n; std::function<void(Im&,std::string&,std::pair<size_t,size_t>&)> f; };
	std::vector<IOp> o;
	auto d1=[]{ return img::DrawParams().setColor(1,2,3).setThickness(5); };
	auto c1=emit( [&](Im& im){ Circle(20,21,7).draw(im); } ); auto c2=emit( [&](Im& im){ Circle(20,21,7).draw(im,d1()); } ); auto tx=emit( [&](Im& im){ drawText(im,"a",Point2d(3,4)); } );
	auto sg=emit( [&](Im& im){ Segment(3,4,5,9).draw(im,d1()); } ), rc=emit( [&](Im& im){ FRect(3,4,5,9).draw(im); } ), rc2=emit( [&](Im& im){ FRect(3,4,5,9).draw(im,d1()); } ), pt=emit( [&](Im& im){ Point2d(3,4).draw(im); } );
	o.push_back( {"circle", [=]( Im& im, auto& s, auto& ){ im.draw( Circle(20,21,7) ); s+=c1; } } );
	o.push_back( {"circle with parameters", [=]( Im& im, auto& s, auto& ){ draw( im, Circle(20,21,7), d1() ); s+=c2; } } );
	o.push_back( {"segment", [=]( Im& im, auto& s, auto& ){ Segment(3,4,5,9).draw(im,d1()); s+=sg; } } );
	o.push_back( {"text", [=]( Im& im, auto& s, auto& ){ im.drawText("a",Point2dF(3,4)); s+=tx; } } );
	o.push_back( {"pair", [=]( Im& im, auto& s, auto& ){ draw( im, std::make_pair( Circle(20,21,7), FRect(3,4,5,9) ) ); s+=c1+rc; } } );
	o.push_back( {"pair with parameters", [=]( Im& im, auto& s, auto& ){ draw( im, std::make_pair( Circle(20,21,7), FRect(3,4,5,9) ), d1() ); s+=c2+rc2; } } );
	o.push_back( {"pair (member)", [=]( Im& im, auto& s, auto& ){ im.draw( std::make_pair( FRect(3,4,5,9), Circle(20,21,7) ), d1() ); s+=rc2+c2; } } );
	o.push_back( {"point", [=]( Im& im, auto& s, auto& z ){ draw( im, Point2d(3,4) ); if( z.first>3 && z.second>4 ) s+=pt; } } );
	o.push_back( {"setSize(30,70)", []( Im& im, auto&, auto& z ){ im.setSize(30,70); z={30,70}; } } );
	o.push_back( {"setSize(pair)", []( Im& im, auto&, auto& z ){ im.setSize( std::make_pair(200.,3.) ); z={200,3}; } } );
	o.push_back( {"clear()", []( Im& im, auto& s, auto& ){ im.clear(); s.clear(); } } );
	o.push_back( {"clear(color)", []( Im& im, auto& s, auto& ){ im.clear( img::Color(1,2,3) ); s.clear(); } } );
	o.push_back( {"clear(1,2,3)", []( Im& im, auto& s, auto& ){ im.clear( 1,2,3 ); s.clear(); } } );
	o.push_back( {"clear(grey)", []( Im& im, auto& s, auto& ){ im.clear( (uint8_t)20 ); s.clear(); } } );
	o.push_back( {"write to a folder that does not exist", []( Im& im, auto&, auto& ){ check( thrown( [&]{ im.write( "/proc/self/nowhere/x.svg" ); } )==1, "write to impossible file" ); } } );
	const int n=o.size(), depth=thorough()?4:3; std::vector<int> q;
	std::function<void()> rec=[&]
	{
		for( int k0=0; k0<2; k0++ )
			run( [&]{
				img::DrawParams::resetDefault(); std::string s; std::pair<size_t,size_t> z{500,500}; Im a, b(100,40); Im& im = k0?b:a; if( k0 ) z={100,40};
				for( int k: q ) { step(); o[k].f( im, s, z ); }
				check( im.size()==z && im.cols()==(int)z.first && im.rows()==(int)z.second, "size" );
				check( im.getReal()._svgString.str()==s, "content", [&]{ return str( "expected ",s," got ",im.getReal()._svgString.str() ); } );
				std::ostringstream os; os<<im; std::string t=os.str();
				auto head="<svg version=\"1.1\" width=\""+std::to_string(z.first)+"\" height=\""+std::to_string(z.second)+"\"";
				check( t.compare(0,head.size(),head)==0 && t.size()>=s.size()+7 && t.substr( t.size()-7-s.size() )==s+"</svg>\n", "stream", [&]{ return t; } );
				std::ostringstream os2; os2<<im; check( os2.str()==t, "stream twice" );
				char fn[64]; snprintf( fn,64,"/tmp/c28_%d.svg",(int)getpid() ); im.write(fn); std::ifstream f(fn); std::stringstream fs; fs<<f.rdbuf(); unlink(fn);
				check( fs.str()==t, "file", [&]{ return fs.str(); } );
				outcome( std::hash<std::string>()(t) );
			}, [&]{ std::string s=k0?"100x40: ":""; for( int k: q ) s+=o[k].n+"; "; return s; } );
		if( (int)q.size()<depth ) for( int k=0;k<n;k++ ) { q.push_back(k); rec(); q.pop_back(); }
	};
	rec();

	section("containers");
	std::vector<std::string> one; std::vector<img::DrawParams> D{ img::DrawParams(), d1(), d1().showIndex(), d1().showPoints().showIndex() };
	auto cont=[&]( auto mk, auto hasIdx, const char* tn )
	{
		for( int n: {0,1,2,3,4,8,9,13,17,33} ) for( size_t kd=0; kd<D.size(); kd++ ) for( int how=0; how<5; how++ )
			run( [&]{
				img::DrawParams::resetDefault(); auto e0=mk(0); typedef decltype(e0) T; std::vector<T> v; std::list<T> l; std::array<T,3> a{ mk(0),mk(1),mk(2) };
				int m = how==2 ? 3 : n; for( int i=0;i<m;i++ ) { v.push_back( mk(i) ); l.push_back( mk(i) ); }
				std::function<img::DrawParams(int)> f=[&]( int i ){ return D[(kd+i)%D.size()]; };
				std::string want; for( int i=0;i<m;i++ )
				{
					auto& d = how>=3 ? D[(kd+i)%D.size()] : D[kd];
					want += emit( [&](Im& im){ v[i].draw(im,d); } ); if( hasIdx(v[i]) && ( how>=3 ? (kd+i)%D.size()>=2 : kd>=2 ) ) want += emit( [&](Im& im){ im.drawText( str(i), Point2dF( hasIdx(v[i])->first, hasIdx(v[i])->second ), d ); } );
				}
				auto got=emit( [&](Im& im){ if( how==0 ) draw(im,v,D[kd]); else if( how==1 ) draw(im,l,D[kd]); else if( how==2 ) draw(im,a,D[kd]); else if( how==3 ) draw(im,v,f); else draw(im,l,f); } );
				check( got==want, "container", [&]{ return str( "expected ",want," got ",got ); } ); outcome( std::hash<std::string>()(got) );
			}, [&]{ return str( tn,' ',n," parameters ",kd," form ",how ); } );
	};
	typedef std::pair<double,double> XY; typedef std::unique_ptr<XY> OP;
	cont( []( int i ){ return Point2d(3+i*7,5+i*6); }, []( auto& p ){ return OP( new XY(p.getX(),p.getY()) ); }, "points" );
	cont( []( int i ){ return Segment(3+i*7,5+i*6,20,30+i); }, []( auto& p ){ auto q=p.getPts(); return OP( new XY( (q.first.getX()+q.second.getX())/2, (q.first.getY()+q.second.getY())/2 ) ); }, "segments" );
	cont( []( int i ){ return Circle(3+i*7,5+i*6,2+i); }, []( auto& ){ return OP(); }, "circles" );
	cont( []( int i ){ return FRect(3+i*7,5+i*6,2+i,1); }, []( auto& ){ return OP(); }, "rectangles" );
	cont( []( int i ){ return Ellipse(3+i*7,5+i*6,2+i,1); }, []( auto& ){ return OP(); }, "ellipses" );
	cont( []( int i ){ auto v=pl(); v[0].translate(i,i+1); return CPolyline(v); }, []( auto& ){ return OP(); }, "polygons" );
	cont( []( int i ){ auto v=pl(); v[0].translate(i,i+1); return OPolyline(v); }, []( auto& ){ return OP(); }, "polylines" );
	cont( []( int i ){ return Line2d( Point2d(i,0), Point2d(20,30) ); }, []( auto& ){ return OP(); }, "lines" );
}

/// what is visible in the image: points are drawn only if inside, lines as the part inside the image
template<class T> void visible( const char* tn )
{
	section( str("points/",tn) );
	for( int w: {10,60} ) for( int h: {8,50} )
		for( int ix=-3; ix<=4; ix++ ) for( int iy=-3; iy<=4; iy++ ) for( int bx=0;bx<2;bx++ ) for( int by=0;by<2;by++ ) for( int style=0; style<6; style++ )
			run( [&]{
				double x=(bx?w:0)+ix*0.25, y=(by?h:0)+iy*0.25; Im im(w,h); img::DrawParams::resetDefault(); img::DrawParams d; d.setPointStyle((img::PtStyle)style); Point2d_<T> p( (T)x, (T)y );
				p.draw( im, d ); step(); auto v=parse( im.getReal()._svgString.str() ); bool in = x>=0 && x<w && y>=0 && y<h;
				check( v.empty()==!in, "point", [&]{ return im.getReal()._svgString.str(); } );
				if( in ) { M m; m.style=style; size_t i=0; symbol( v,i,x,y,m,"point" ); check( i==v.size(), "point" ); } outcome( mix(in,style) );
			}, [&]{ return str( w,'x',h,' ',(bx?w:0)+ix*0.25,',',(by?h:0)+iy*0.25," style ",style ); } );
	section( str("lines/",tn) );
	auto g=geo::grid(-2,-2,thorough()?8:6,thorough()?8:6);
	for( int w: {5,9} ) for( int h: {4,7} )
		for( size_t i=0;i<g.size();i++ ) for( size_t j=i+1;j<g.size();j++ )
			run( [&]{
				IP a=g[i], b=g[j]; Im im(w,h); img::DrawParams::resetDefault();
				if( sizeof(T)==4 ) for( IP c: { IP{0,0},IP{w-1,0},IP{0,h-1},IP{w-1,h-1} } ) if( cross(a,b,c)==0 ) return;   // through a corner: decided by the rounding of the line
				Line2d_<T> l( Point2d_<T>(a.x,a.y), Point2d_<T>(b.x,b.y) ); l.draw( im, img::DrawParams().setColor(1,2,3).showPoints() ); step();
				auto v=parse( im.getReal()._svgString.str() );
				// exact clip of a+t(b-a) to [0,w-1]x[0,h-1]
				bool in=true; Q t0=Q::of(-1000,1), t1=Q::of(1000,1);
				auto clip=[&]( ll p, ll d, ll m ) { if( d==0 ) { if( p<0 || p>m ) in=false; return; } Q u=Q::of(-p,d), s=Q::of(m-p,d); if( s<u ) std::swap(u,s); if( u>t0 ) t0=u; if( s<t1 ) t1=s; };
				clip( a.x, b.x-a.x, w-1 ); clip( a.y, b.y-a.y, h-1 ); if( in && t1<t0 ) in=false;
				bool pt = in && t0==t1;
				if( pt ) { check( v.size()<=1, "line touching a corner", [&]{ return im.getReal()._svgString.str(); } ); return; }
				check( v.size()==( in?1:0 ), "line", [&]{ return im.getReal()._svgString.str(); } ); outcome( in );
				if( in && v.size()==1 )
				{
					double x0=a.x+t0.v()*(b.x-a.x), y0=a.y+t0.v()*(b.y-a.y), x1=a.x+t1.v()*(b.x-a.x), y1=a.y+t1.v()*(b.y-a.y); auto n=[&](const char*k){ return num(v[0],k); };
					auto eq=[&]( double p, double q, double r, double s ){ double e=1e-4; return std::fabs(n("x1")-p)<e && std::fabs(n("y1")-q)<e && std::fabs(n("x2")-r)<e && std::fabs(n("y2")-s)<e; };
					check( eq(x0,y0,x1,y1) || eq(x1,y1,x0,y0), "line", [&]{ return str( "expected ",x0,',',y0,' ',x1,',',y1," got ",v[0].raw ); } ); M m; m.r=1; m.g=2; m.b=3; stroke( v[0], m, "line" );
				}
			}, [&]{ return str( w,'x',h,' ',g[i],g[j] ); } );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	histories( 3, false ); if( thorough() ) histories( 4, true ); values(); colors(); images(); visible<double>("double"); visible<float>("float"); if( thorough() ) visible<long double>("long double");
	return finish();
}
