// C26: drawing to SVG and importing back preserves shapes.
#include "geo.hpp"
#include <fstream>
#define HOMOG2D_USE_SVG_IMPORT
#include "homog2d.hpp"
using namespace mc;
using namespace h2d;

typedef CommonType_<double> Var;
/// expected shape, described by plain numbers
struct Exp { char kind; std::vector<double> v; };    // C: cx cy r  E: cx cy a b angle  S: x1 y1 x2 y2  R: x1 y1 x2 y2  P/O: closed/open points
static std::string text( const Exp& e ) { std::ostringstream o; o.precision(10); o<<e.kind; for( double d: e.v ) o<<' '<<d; return o.str(); }
static Exp conv( const Var& x )
{
	Exp e;
	if( auto* c=std::get_if<CircleD>(&x) ) e=Exp{'C',{c->center().getX(),c->center().getY(),c->radius()}};
	else if( auto* c=std::get_if<EllipseD>(&x) ) { auto m=c->getMajMin(); e=Exp{'E',{c->getCenter().getX(),c->getCenter().getY(),m.first,m.second,c->angle()}}; }
	else if( auto* c=std::get_if<SegmentD>(&x) ) { auto p=c->getPts(); e=Exp{'S',{p.first.getX(),p.first.getY(),p.second.getX(),p.second.getY()}}; }
	else if( auto* c=std::get_if<FRectD>(&x) ) { auto p=c->getPts(); e=Exp{'R',{p.first.getX(),p.first.getY(),p.second.getX(),p.second.getY()}}; }
	else if( auto* c=std::get_if<CPolylineD>(&x) ) { e.kind='P'; for( auto& p: c->getPts() ) { e.v.push_back(p.getX()); e.v.push_back(p.getY()); } }
	else if( auto* c=std::get_if<OPolylineD>(&x) ) { e.kind='O'; for( auto& p: c->getPts() ) { e.v.push_back(p.getX()); e.v.push_back(p.getY()); } }
	else e.kind='?';
	return e;
}
/// same shape: eps relative to the values (printed precision). Ellipses: axis directions compared only if not a circle
static bool same( const Exp& a, const Exp& b, double eps )
{
	if( a.kind!=b.kind || a.v.size()!=b.v.size() ) return false;
	double m=0; for( double d: a.v ) m=std::max(m,std::fabs(d));
	auto c=[&]( double x, double y, double s ) { return std::isfinite(x) && std::fabs(x-y)<=eps*s+1e-9*m; };
	if( a.kind=='E' )
	{
		for( int i=0;i<4;i++ ) if( !c(a.v[i],b.v[i], std::max(std::fabs(b.v[i]),i>1?b.v[2]*1e-2:0)) ) return false;
		if( std::fabs(a.v[2]-a.v[3])<1e-3*a.v[2] ) return true;
		double d=std::remainder( a.v[4]-b.v[4], M_PI ); return std::fabs(d)<=1e-5+eps*50*a.v[2]/(a.v[2]-a.v[3]);
	}
	if( a.kind=='R' ) // width is what is printed: its error adds to the corner's
	{
		for( int i=0;i<4;i++ ) if( !c(a.v[i],b.v[i],i<2?std::fabs(b.v[i]):std::fabs(b.v[i-2])+std::fabs(b.v[i]-b.v[i-2])) ) return false;
		return true;
	}
	for( size_t i=0;i<a.v.size();i++ ) if( !c(a.v[i],b.v[i],std::fabs(b.v[i])) ) return false;
	return true;
}
static std::vector<Var> importDoc( const std::string& s )
{
	tinyxml2::XMLDocument doc;
	if( doc.Parse( s.c_str() )!=tinyxml2::XML_SUCCESS ) throw std::runtime_error( "the SVG text is not well formed" );
	h2d::svg::Visitor v; doc.Accept( &v ); step(); return v.get();
}
static void compare( const std::vector<Var>& d, const std::vector<Exp>& e, double eps, const char* tag )
{
	auto show=[&]{ std::ostringstream o; o<<"got "; for( auto& x: d ) o<<'['<<text(conv(x))<<']'; o<<" expected "; for( auto& x: e ) o<<'['<<text(x)<<']'; return o.str(); };
	if( !check( d.size()==e.size(), tag, show ) ) return;
	uint64_t h=0;
	for( size_t i=0;i<e.size();i++ ) { auto x=conv(d[i]); if( !check( same(x,e[i],eps), tag, show ) ) return; h=mix(h,x.kind); for( double w: x.v ) h=mix(h,hd(w)); }
	outcome(h);
}
// ------------------------------------------------------------------ drawing an Exp with the library (numeric type T)
template<class T> std::vector<Point2d_<T>> pts( const Exp& e ) { std::vector<Point2d_<T>> o; for( size_t i=0;i<e.v.size();i+=2 ) o.emplace_back( (T)e.v[i],(T)e.v[i+1] ); return o; }
template<class T,class F> void withShape( const Exp& e, F f )
{
	auto& v=e.v;
	switch( e.kind )
	{
		case 'C': f( Circle_<T>( (T)v[0],(T)v[1],(T)v[2] ) ); break;
		case 'E': f( Ellipse_<T>( (T)v[0],(T)v[1],(T)v[2],(T)v[3],(T)v[4] ) ); break;
		case 'S': f( Segment_<T>( (T)v[0],(T)v[1],(T)v[2],(T)v[3] ) ); break;
		case 'R': f( FRect_<T>( (T)v[0],(T)v[1],(T)v[2],(T)v[3] ) ); break;
		case 'P': f( CPolyline_<T>( pts<T>(e) ) ); break;
		case 'O': f( OPolyline_<T>( pts<T>(e) ) ); break;
	}
}
/// what the library holds for that shape (normalised by its own constructor)
static Exp norm( Exp e )
{
	if( e.kind=='S' && (e.v[2]<e.v[0] || (e.v[2]==e.v[0] && e.v[3]<e.v[1])) ) { std::swap(e.v[0],e.v[2]); std::swap(e.v[1],e.v[3]); }
	if( e.kind=='R' ) { if(e.v[0]>e.v[2]) std::swap(e.v[0],e.v[2]); if(e.v[1]>e.v[3]) std::swap(e.v[1],e.v[3]); }
	return e;
}
static const int NDP=8;
static img::DrawParams dparam( int k )
{
	img::DrawParams d;
	switch( k )
	{
		case 1: d.setColor(255,0,17).setThickness(3); break;
		case 2: d.setAttrString("fill=\"red\""); break;
		case 3: d.setAttrString("fill-opacity=\"0.4\" id=\"x y\" r2=\"3\""); break;
		case 4: d.showIndex(); break;
		case 5: d.setPointStyle(img::PtStyle::Dot).setPointSize(7).selectPoint().setFontSize(33); break;
		case 6: d.showAngles(); break;
		case 7: d.showPoints(); break;
	}
	return d;
}
enum Way { Member, Free, Image_, Variant, NWAYS };
template<class T> void drawOne( img::Image<img::SvgImage>& im, const Exp& e, int way, const img::DrawParams& dp )
{
	withShape<T>( e, [&]( const auto& s ){
		step();
		switch( way )
		{
			case Member: s.draw( im, dp ); break;
			case Free:   draw( im, s, dp ); break;
			case Image_: im.draw( s, dp ); break;
			default:     { CommonType_<T> v(s); fct::DrawFunct<img::SvgImage> f( im, dp ); std::visit( f, v ); }
		} } );
}
template<class T> void drawing( const std::vector<Exp>& v, int way, int dp, double eps, const char* tn )
{
	run( [&]{
		img::Image<img::SvgImage> im(600,400);
		std::vector<Exp> e;
		for( auto& x: v ) { drawOne<T>( im, x, way, dparam(dp) ); e.push_back( norm(x) ); }
		std::ostringstream o; o<<im;
		compare( importDoc(o.str()), e, eps, "roundtrip" );
		tinyxml2::XMLDocument doc; doc.Parse( o.str().c_str() ); auto s=h2d::svg::getImgSize(doc);
		check( s.first==600 && s.second==400, "size", "image size" );
	}, [&]{ std::ostringstream o; for( auto& x: v ) o<<'['<<text(x)<<']'; o<<" way "<<way<<" parameters "<<dp<<' '<<tn; return o.str(); } );
}
/// drawing with visible points: the shape itself must still be there, first
static void withPoints( const Exp& x )
{
	run( [&]{
		img::Image<img::SvgImage> im(600,400); drawOne<double>( im, x, Member, dparam(7) ); std::ostringstream o; o<<im;
		auto d=importDoc(o.str());
		if( check( d.size()>=1, "points", "nothing imported" ) ) { d.resize(1); compare( d, {norm(x)}, 1e-5, "points" ); }
	}, [&]{ return text(x)+" with points shown"; } );
}
// ------------------------------------------------------------------ hand-written elements
static void element( const std::string& body, const std::vector<Exp>& e, const std::string& name )
{
	run( [&]{ compare( importDoc( "<svg width=\"10\" height=\"20\" xmlns=\"http://www.w3.org/2000/svg\">"+body+"</svg>" ), e, 1e-12, "element" ); }, [&]{ return name+": "+body; } );
}
typedef std::vector<std::pair<std::string,std::string>> Attr;
template<class F> void perms( Attr a, F f )
{
	std::sort( a.begin(), a.end() );
	do f(a); while( std::next_permutation( a.begin(), a.end() ) );
}
static std::string tag( const std::string& n, const Attr& a ) { std::string o="<"+n; for( auto& p: a ) o+=" "+p.first+"=\""+p.second+"\""; return o+"/>"; }

int main( int argc, char** argv )
{
	init( argc, argv );
	bool th=thorough();
	std::vector<Exp> O{
		{'C',{50,60,7}}, {'C',{-12.5,0,0.125}}, {'E',{100,80,40,15,0}}, {'E',{30.5,-20,25,24,0.7}}, {'E',{200,100,60,12,2.5}},
		{'S',{1,2,30,-40}}, {'S',{30,-40,1,2}}, {'S',{5,9,5,2}}, {'R',{10,20,110,55}}, {'R',{3,-4,-8.5,7}},
		{'P',{0,0,100,10,50,80}}, {'P',{50,80,100,10,0,0,-20.5,30}}, {'P',{10,10,20,20}}, {'O',{0,0,100,10,50,80}}, {'O',{7,8,1,2,7,9,7,5}}, {'O',{90,10,20,20}} };
	section("sequences");
	for( size_t a=0;a<O.size();a++ ) for( int w=0;w<NWAYS;w++ ) for( int dp=0;dp<7;dp++ ) { drawing<double>({O[a]},w,dp,1e-5,"double"); drawing<float>({O[a]},w,dp,1e-5,"float"); drawing<long double>({O[a]},w,dp,1e-5,"long double"); }
	for( auto& a: O ) for( auto& b: O ) { for( int dp=0;dp<7;dp++ ) drawing<double>({a,b},(dp*3)%NWAYS,dp,1e-5,"double"); }
	for( auto& a: O ) for( auto& b: O ) for( auto& c: O ) drawing<double>({a,b,c},Member,0,1e-5,"double");
	if( th ) for( auto& a: O ) for( auto& b: O ) for( auto& c: O ) for( auto& d: O ) drawing<double>({a,b,c,d},Free,2,1e-5,"double");
	drawing<double>( {}, Member, 0, 1e-5, "double" );
	section("points-shown");
	for( auto& a: O ) withPoints( a );
	section("values");
	{
		const std::vector<double> V{ 0, -3, 7.25, 1234.5, -99999.5, 0.125, 123456, -0.001 }, W{ 5, 0.5, 99.75, 4321 }, X{ 1234567, 0.1234567, -1e7, 1e-4, 12.3456789 };
		std::vector<double> A=V; A.insert(A.end(),X.begin(),X.end());
		for( double x: A ) for( double y: A ) for( double r: W ) drawing<double>( {{'C',{x,y,r}}}, Member, 0, 1e-5, "double" );
		for( double x: A ) for( double y: A ) for( double x2: A ) for( double y2: A )
		{
			if( x!=x2 || y!=y2 ) drawing<double>( {{'S',{x,y,x2,y2}}}, Member, 0, 1e-5, "double" );
			if( std::fabs(x-x2)>1e-2 && std::fabs(y-y2)>1e-2 ) drawing<double>( {{'R',{x,y,x2,y2}}}, Member, 0, 1e-5, "double" );
			auto P=[]( double a, double b ){ return std::make_pair(a,b); };
			std::set<std::pair<double,double>> s{ P(x,y),P(x2,y2),P(3,4) };
			if( s.size()==3 ) { drawing<double>( {{'P',{x,y,x2,y2,3,4}}}, Member, 0, 1e-5, "double" ); drawing<double>( {{'O',{3,4,x,y,x2,y2}}}, Member, 0, 1e-5, "double" ); }
		}
		for( double x: {0.,-30.5,1234.5} ) for( double y: {0.,77.} ) for( double a: W ) for( double b: W ) for( double t: {0.,0.3,0.8,1.5,1.6,2.4,3.1,-0.5} )
			if( a>b*1.05 && a<b*50 ) drawing<double>( {{'E',{x,y,a,b,t}}}, Member, 0, 1e-5, "double" );
	}
	section("elements");
	{
		for( int extra=0;extra<2;extra++ )
		{
			auto X=[&]( Attr a ){ if( extra ) { a.push_back({"stroke","rgb(1,2,3)"}); } return a; };
			perms( X({{"cx","5.5"},{"cy","-6"},{"r","7"}}), [&]( const Attr& a ){ element( tag("circle",a), {{'C',{5.5,-6,7}}}, "circle" ); } );
			perms( X({{"x","5.5"},{"y","-6"},{"width","7"},{"height","8.25"}}), [&]( const Attr& a ){ element( tag("rect",a), {{'R',{5.5,-6,12.5,2.25}}}, "rect" ); } );
			perms( X({{"x1","1"},{"y1","2"},{"x2","3"},{"y2","-4"}}), [&]( const Attr& a ){ element( tag("line",a), {{'S',{1,2,3,-4}}}, "line" ); } );
			perms( X({{"x1","3"},{"y1","2"},{"x2","1"},{"y2","-4"}}), [&]( const Attr& a ){ element( tag("line",a), {{'S',{1,-4,3,2}}}, "line" ); } );
			perms( X({{"cx","5.5"},{"cy","-6"},{"rx","7"},{"ry","3"}}), [&]( const Attr& a ){ element( tag("ellipse",a), {{'E',{5.5,-6,7,3,0}}}, "ellipse" ); } );
			perms( X({{"cx","5.5"},{"cy","-6"},{"rx","7"},{"ry","30"}}), [&]( const Attr& a ){ element( tag("ellipse",a), {{'E',{5.5,-6,30,7,M_PI/2}}}, "tall ellipse" ); } );
			perms( X({{"cx","5.5"},{"cy","-6"},{"rx","7"},{"ry","3"},{"transform","rotate(30,5.5,-6)"}}), [&]( const Attr& a ){ element( tag("ellipse",a), {{'E',{5.5,-6,7,3,M_PI/6}}}, "rotated ellipse" ); } );
		}
		// points attribute: all separators between and around the numbers
		static const char* in[]={ ","," ",", "," , "," ,","\n","\t","  " };
		static const char* nums[][6]={ {"1","2","30","-4","5.5","60"}, {"-1.5","+2","3e1","-.5","1E+2","0"} };
		static const double val[][6]={ {1,2,30,-4,5.5,60}, {-1.5,2,30,-.5,100,0} };
		for( int k=0;k<2;k++ ) for( const char* s: in ) for( const char* t: in ) for( const char* b: {""," ","\n"} ) for( const char* e: {""," ","\n\t"} ) for( int rep=0;rep<2;rep++ )
			for( const char* n: {"polygon","polyline"} )
			{
				std::string p=b; for( int i=0;i<6;i+=2 ) { if(i) p+=t; p+=nums[k][i]; p+=s; p+=nums[k][i+1]; }
				if( rep ) { p+=t; p+=nums[k][0]; p+=s; p+=nums[k][1]; if( n[4]=='l' ) continue; }     // polygon repeating its first point at the end
				p+=e;
				Exp x{ n[4]=='l'?'O':'P', std::vector<double>(val[k],val[k]+6) };
				element( tag(n,{{"points",p},{"fill","none"}}), {x}, n );
			}
		for( const char* n: {"polygon","polyline"} )
			for( auto p: { "1,2 1,2 30,-4 5,6", "1,2 30,-4 30,-4 5,6", "1,2 30,-4 5,6 5,6", "1,2 1,2 1,2 30,-4 30,-4 5,6" } )
				element( tag(n,{{"points",p}}), { Exp{ n[4]=='l'?'O':'P', {1,2,30,-4,5,6} } }, "repeated point" );
		// groups and unknown elements between
		std::vector<std::pair<std::string,std::vector<Exp>>> B{
			{"<circle cx=\"1\" cy=\"2\" r=\"3\"/>",{{'C',{1,2,3}}}}, {"<line x1=\"1\" y1=\"2\" x2=\"3\" y2=\"4\"/>",{{'S',{1,2,3,4}}}}, {"<text x=\"1\" y=\"2\">a &lt; b</text>",{}},
			{"<title>t</title>",{}}, {"<!-- comment -->",{}}, {"<rect x=\"0\" y=\"0\" width=\"2\" height=\"3\"/>",{{'R',{0,0,2,3}}}}, {"<polygon points=\"0,0 5,0 5,5\"/>",{{'P',{0,0,5,0,5,5}}}},
			{"<g><circle cx=\"9\" cy=\"9\" r=\"1\"/><g id=\"k\"><circle cx=\"8\" cy=\"9\" r=\"1\"/></g></g>",{{'C',{9,9,1}},{'C',{8,9,1}}}}, {"<path d=\"M1 1h3v4z\"/>",{{'P',{1,1,4,1,4,5}}}} };
		auto cat=[]( std::vector<Exp> a, const std::vector<Exp>& b ) { a.insert(a.end(),b.begin(),b.end()); return a; };
		for( auto& a: B ) for( auto& b: B ) for( auto& c: B ) element( a.first+b.first+c.first, cat(cat(a.second,b.second),c.second), "document" );
		for( auto& a: B ) for( auto& b: B ) for( auto& c: B ) element( "<g fill=\"none\">"+a.first+"<g>"+b.first+"</g></g>"+c.first, cat(cat(a.second,b.second),c.second), "grouped" );
	}
	section("large");         // many objects in a document, many points in a shape, deep and wide groups
	{
		std::vector<int> N{8,9,12,13,17,24,33}; if( th ) for( int i: {10,11,14,15,16,18,20,25,32,40,48,64,65,100,129,257} ) N.push_back(i);
		for( int n: N )
		{
			for( size_t o=0;o<O.size();o++ ) for( int dp: {0,1,2,6} ) { std::vector<Exp> v,w; for( int i=0;i<n;i++ ) { v.push_back( O[(o+i)%O.size()] ); w.push_back( O[o] ); } drawing<double>( v, o%NWAYS, dp, 1e-5, "double" ); drawing<double>( w, Member, dp, 1e-5, "double" ); }
			for( char k: {'P','O'} ) for( int sh=0;sh<3;sh++ )
			{
				Exp x{k,{}}; std::string p;
				for( int i=0;i<n;i++ ) { double X= sh==0 ? i*3-20 : sh==1 ? (i*37)%101-30.5 : i<n/2?i*2:(n-i)*2+.25, Y= sh==0 ? (i%2)*7 : sh==1 ? (i*53)%97 : i<n/2?0:5-i%2; x.v.push_back(X); x.v.push_back(Y); p+=str( i?" ":"", X, ",", Y ); }
				for( int dp: {0,2,4,6} ) for( int way=0;way<NWAYS;way++ ) { drawing<double>( {x}, way, dp, 1e-5, "double" ); drawing<float>( {x}, way, dp, 1e-5, "float" ); }
				withPoints( x );
				const char* en= k=='O'?"polyline":"polygon";
				element( tag( en, {{"points",p}} ), {x}, en );
				element( tag( en, {{"points",p}} )+tag( "circle", {{"cx","1"},{"cy","2"},{"r","3"}} )+tag( en, {{"points",p}} ), {x,{'C',{1,2,3}},x}, en );
			}
			std::string a,b; for( int i=0;i<n;i++ ) { a+="<g>"; b+="</g>"; }
			const std::string c="<circle cx=\"1\" cy=\"2\" r=\"3\"/>", l="<line x1=\"1\" y1=\"2\" x2=\"3\" y2=\"4\"/>", u="<text x=\"1\">b</text>";
			element( a+c+b, {{'C',{1,2,3}}}, "deep group" ); element( c+a+l+b+c, {{'C',{1,2,3}},{'S',{1,2,3,4}},{'C',{1,2,3}}}, "deep group" );
			{ std::string d; std::vector<Exp> e; for( int i=0;i<n;i++ ) { d+=u+(i%2?l:c); if( i%2 ) e.push_back({'S',{1,2,3,4}}); else e.push_back({'C',{1,2,3}}); } element( d, e, "many elements" ); element( "<g>"+d+"</g>"+c, [&]{ auto f=e; f.push_back({'C',{1,2,3}}); return f; }(), "many in a group" ); }
			{ std::string d; std::vector<Exp> e; for( int i=0;i<n;i++ ) { d+="<g>"+l+"</g>"+u; e.push_back({'S',{1,2,3,4}}); } element( d, e, "many groups" ); }
		}
	}
	section("refused");       // a missing or ill-formed attribute: std::runtime_error, the objects read before are kept, later imports are not affected
	{
		std::vector<std::string> bad;
		auto elem=[&]( const char* n, const Attr& a, const std::vector<std::pair<int,std::string>>& subst )
		{
			for( size_t i=0;i<a.size();i++ )
			{
				Attr b=a; b.erase( b.begin()+i ); bad.push_back( tag(n,b) );
				for( const char* s: {"","abc","--5","."} ) { b=a; b[i].second=s; if( a[i].first!="points" || *s ) bad.push_back( tag(n,b) ); }
			}
			for( auto& s: subst ) { Attr b=a; b[s.first].second=s.second; bad.push_back( tag(n,b) ); }
		};
		elem( "circle", {{"cx","5.5"},{"cy","-6"},{"r","7"}}, {{2,"0"},{2,"-7"}} );
		elem( "rect", {{"x","5.5"},{"y","-6"},{"width","7"},{"height","8.25"}}, {{2,"0"},{3,"0"}} );
		elem( "line", {{"x1","1"},{"y1","2"},{"x2","3"},{"y2","-4"}}, {} ); bad.push_back( tag( "line", {{"x1","1"},{"y1","2"},{"x2","1"},{"y2","2"}} ) );
		elem( "ellipse", {{"cx","5.5"},{"cy","-6"},{"rx","7"},{"ry","3"}}, {{2,"0"},{3,"0"},{2,"-7"},{3,"-1"}} );
		for( const char* t: {"rotate","rotate(30)","rotate(30,1)","rotate(a,1,2)","rotate(1,b,2)","rotate(1,2,c)","rotate(,,)","scale(2)","translate(1,2)","matrix(1,0,0,1,0,0)","rotate(1,2,3) rotate(4,5,6)","rotate(1,2,3,4)","x(1,2,3)"} )
			bad.push_back( tag( "ellipse", {{"cx","5.5"},{"cy","-6"},{"rx","7"},{"ry","3"},{"transform",t}} ) );
		for( const char* n: {"polygon","polyline"} )
			elem( n, {{"points","1,2 30,-4 5,6"}}, {{0,"1"},{0,"1,2 3"},{0,"1,2 3,4 5"},{0,"a,b c,d"},{0,"1,2 x,4 5,6"},{0,"1,2x 3,4"},{0,"1,2 3,4-"}} );
		std::vector<std::pair<std::string,std::vector<Exp>>> B{ {"",{}}, {"<circle cx=\"1\" cy=\"2\" r=\"3\"/>",{{'C',{1,2,3}}}}, {"<line x1=\"1\" y1=\"2\" x2=\"3\" y2=\"4\"/>",{{'S',{1,2,3,4}}}}, {"<polygon points=\"0,0 5,0 5,5\"/>",{{'P',{0,0,5,0,5,5}}}}, {"<path d=\"M1 1h3v4z\"/>",{{'P',{1,1,4,1,4,5}}}} };
		for( auto& x: bad ) for( auto& a: B ) for( auto& b: B ) run( [&]{
			tinyxml2::XMLDocument doc; std::string s="<svg width=\"10\" height=\"10\">"+a.first+x+b.first+"</svg>"; step();
			if( doc.Parse( s.c_str() )!=tinyxml2::XML_SUCCESS ) throw std::logic_error( "harness: document" );
			h2d::svg::Visitor v; int t=thrown([&]{ doc.Accept(&v); }); check( t==1, "refused", [&]{ return str( "exception: ",t ); } );
			compare( v.get(), a.second, 1e-5, "kept" );
			auto c=a.second; c.insert( c.end(), b.second.begin(), b.second.end() );
			compare( importDoc( "<svg width=\"10\" height=\"10\">"+a.first+b.first+"</svg>" ), c, 1e-5, "later" );
		}, [&]{ return x+" in "+a.first+" / "+b.first; } );
		for( std::string s: {"<svg/>","<svg width=\"5\"/>","<svg height=\"5\"/>"} ) run( [&]{ tinyxml2::XMLDocument doc; doc.Parse( s.c_str() ); check( thrown([&]{ h2d::svg::getImgSize( doc ); })==1, "size", "no exception" ); step(); }, [&]{ return s; } );
	}
	section("files");
	{
		char dir[]="/tmp/c26XXXXXX"; 
		for( auto& a: O ) for( auto& b: O )
			run( [&]{
				std::string d=mkdtemp(dir)?dir:"", f=d+"/i.svg";
				if( d.empty() ) throw std::logic_error("harness: no scratch directory");
				img::Image<img::SvgImage> im; im.setSize(300,250); drawOne<double>( im, a, Member, dparam(1) ); drawOne<double>( im, b, Free, dparam(0) );
				im.write( f ); std::ostringstream o; o<<im;
				std::ifstream in(f); std::stringstream s; s<<in.rdbuf(); in.close();
				tinyxml2::XMLDocument doc; bool ok=doc.LoadFile( f.c_str() )==tinyxml2::XML_SUCCESS;
				unlink( f.c_str() ); rmdir( d.c_str() ); strcpy( dir, "/tmp/c26XXXXXX" );
				check( s.str()==o.str(), "file", "file and stream differ" );
				if( check( ok, "file", "not readable" ) ) { h2d::svg::Visitor v; doc.Accept(&v); compare( v.get(), {norm(a),norm(b)}, 1e-5, "file" ); auto z=h2d::svg::getImgSize(doc); check( z.first==300&&z.second==250, "size" ); }
				// clearing the image removes everything
				im.clear(); std::ostringstream e; e<<im; check( importDoc(e.str()).empty(), "clear", "objects left after clear()" );
			}, [&]{ return text(a)+" / "+text(b); } );
		run( [&]{ img::Image<img::SvgImage> im; check( thrown([&]{ im.write("/nonexistent-dir/x.svg"); })==1, "unwritable" ); }, [&]{ return "write to an impossible path"; } );
	}
	return finish();
}
