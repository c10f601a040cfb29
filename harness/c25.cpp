// C25: SVG path data is read as the SVG grammar defines.
#include "geo.hpp"
#define HOMOG2D_USE_SVG_IMPORT
#include "homog2d.hpp"
using namespace mc;
using namespace h2d;

struct P { double x,y; };
struct Sub { bool closed; bool ends; std::vector<P> pts; };      // ends: the open subpath ends where it started
enum St { Ok, Refuse, NoClaim };

/// Independent reading of path data (SVG 1.1/2 grammar, commands M L H V Z)
struct Ref
{
	St st=Ok; std::vector<Sub> out; std::string t; size_t i=0;
	bool lenient=false, hard=false;
	static bool wsp( char c ) { return c==' '||c=='\t'||c=='\n'||c=='\r'||c=='\f'; }
	bool num( double& v )       // at i: a number?
	{
		size_t k=i; if( k<t.size() && (t[k]=='+'||t[k]=='-') ) k++;
		size_t d=k; while( k<t.size() && isdigit((unsigned char)t[k]) ) k++;
		bool a=k>d, dot=false, b=false;
		if( k<t.size() && t[k]=='.' ) { dot=true; k++; size_t f=k; while( k<t.size() && isdigit((unsigned char)t[k]) ) k++; b=k>f; }
		if( !a && !b ) return false;
		if( dot && !b ) lenient=true;                      // "5.": legal in SVG 1.1 only
		if( k<t.size() && (t[k]=='e'||t[k]=='E') )
		{
			size_t x=k+1; if( x<t.size() && (t[x]=='+'||t[x]=='-') ) x++;
			size_t f=x; while( x<t.size() && isdigit((unsigned char)t[x]) ) x++;
			if( x>f ) k=x;
		}
		v=strtod( t.substr(i,k-i).c_str(), 0 ); i=k; if( !std::isfinite(v) || (v!=0 && std::fabs(v)<1e-6) || (v==0 && t.substr(0,i).find_last_of("eE")!=std::string::npos) ) lenient=true; return true;
	}
	void sw() { while( i<t.size() && wsp(t[i]) ) i++; }
	bool numStart() const { return i<t.size() && (isdigit((unsigned char)t[i])||t[i]=='+'||t[i]=='-'||t[i]=='.'); }
	int commas() { int n=0; while( i<t.size() && (wsp(t[i])||t[i]==',') ) { n+= t[i]==','; i++; } if( n>1 ) lenient=true; return n; }
	Ref( const std::string& s ) : t(s)
	{
		P cur{0,0}, start{0,0}; bool first=true, fresh=true; // fresh: no subpath is open
		auto lead=[&]{ sw(); if( i<t.size() && t[i]==',' ) { lenient=true; commas(); } };
		lead();
		while( i<t.size() && !hard )
		{
			char c=t[i];
			if( first && numStart() ) { lenient=true; break; }
			i++;
			if( !strchr("MmLlHhVvZz",c) || !c ) { hard=true; break; }
			if( first && c!='M' && c!='m' ) { lenient=true; break; }
			if( c=='Z'||c=='z' ) { if( !fresh ) out.back().closed=true; cur=start; fresh=true; lead(); first=false; continue; }
			int nv = strchr("HhVv",c)?1:2; bool rel=c>='a'; char C=toupper(c); int groups=0;
			lead();
			do
			{
				double v[2]={0,0};
				for( int k=0;k<nv;k++ )
				{
					if( k ) commas();
					if( !num(v[k]) ) { hard=true; break; }
				}
				if( hard ) break;
				P p=cur;
				if( C=='M'||C=='L' ) p = rel?P{cur.x+v[0],cur.y+v[1]}:P{v[0],v[1]};
				else if( C=='H' ) p.x= rel?cur.x+v[0]:v[0];
				else p.y= rel?cur.y+v[0]:v[0];
				if( C=='M' && groups==0 ) { start=p; out.push_back( Sub{false,false,{p}} ); fresh=false; }
				else { if( fresh ) { out.push_back( Sub{false,false,{start}} ); fresh=false; } out.back().pts.push_back(p); }
				cur=p; groups++; first=false;
				int n=commas();
				if( !numStart() ) { if( n ) lenient=true; break; }
			} while( true );
			lead();
		}
		st = lenient ? NoClaim : hard ? Refuse : Ok;
		std::vector<Sub> o;
		for( auto& s: out )
		{
			std::vector<P> v; auto eq=[]( P a, P b ){ return a.x==b.x&&a.y==b.y; };
			for( auto& p: s.pts ) if( v.empty() || !eq(v.back(),p) ) v.push_back(p);
			if( v.size()>1 && eq(v.front(),v.back()) ) { v.pop_back(); s.ends=true; }
			if( v.size()>1 ) o.push_back( Sub{s.closed,s.ends,v} );
		}
		out=o;
	}
	std::string text() const { std::ostringstream o; o<<(st==Ok?"ok":st==Refuse?"malformed":"no claim"); for( auto& s: out ) { o<<(s.closed?" closed":" open"); for( auto& p: s.pts ) o<<'('<<p.x<<','<<p.y<<')'; } return o.str(); }
};
static std::vector<Sub> got( const std::vector<CommonType_<double>>& d, size_t b, size_t e, bool& ok )
{
	std::vector<Sub> o; ok=true;
	for( size_t i=b;i<e;i++ )
	{
		Sub s{false,false,{}};
		if( auto* c=std::get_if<CPolylineD>(&d[i]) ) { s.closed=true; for( auto& p: c->getPts() ) s.pts.push_back(P{p.getX(),p.getY()}); }
		else if( auto* c=std::get_if<OPolylineD>(&d[i]) ) { for( auto& p: c->getPts() ) s.pts.push_back(P{p.getX(),p.getY()}); }
		else { ok=false; continue; }
		if( s.pts.size() ) o.push_back(s);
	}
	return o;
}
static std::string show( const std::vector<Sub>& v ) { std::ostringstream o; o<<v.size()<<" shapes:"; for( auto& s: v ) { o<<(s.closed?" closed":" open"); for( auto& p: s.pts ) o<<'('<<p.x<<','<<p.y<<')'; } return o.str(); }

static void pathCase( const std::string& d, bool text=false )
{
	run( [&]{
		Ref r(d);
		static tinyxml2::XMLDocument docs; tinyxml2::XMLDocument& doc=docs; doc.Clear();
		if( text )
		{
			std::string x="<svg width=\"100\" height=\"100\"><g><path stroke=\"none\" d=\""+d+"\" fill=\"red\"/></g><circle cx=\"5\" cy=\"6\" r=\"7\"/><path d=\"m9 9-1-1h-3z\"/></svg>";
			if( doc.Parse( x.c_str() )!=tinyxml2::XML_SUCCESS ) throw std::logic_error("harness: xml");
		}
		else
		{
			auto* root=doc.NewElement("svg"); doc.InsertEndChild(root);
			auto* p=doc.NewElement("path"); p->SetAttribute("d",d.c_str()); root->InsertEndChild(p);
			auto* c=doc.NewElement("circle"); c->SetAttribute("cx","5"); c->SetAttribute("cy","6"); c->SetAttribute("r","7"); root->InsertEndChild(c);
			auto* q=doc.NewElement("path"); q->SetAttribute("d","m9 9-1-1h-3z"); root->InsertEndChild(q);
		}
		h2d::svg::Visitor vis; 
		int t=thrown([&]{ doc.Accept(&vis); });
		outcome( mix(r.st*7+t,r.out.size()) );
		if( t ) { check( t==1 && r.st!=Ok, "refused", [&]{ return str( "exception; expected ",r.text() ); } ); return; }
		const auto& data=vis.get();
		// the circle that follows splits the result
		size_t k=data.size(); for( size_t i=0;i<data.size();i++ ) if( std::holds_alternative<CircleD>(data[i]) ) { k=i; break; }
		if( !check( k<data.size(), "following", "the element after the path was lost" ) ) return;
		bool a,b; auto g=got(data,0,k,a), h=got(data,k+1,data.size(),b);
		check( a&&b, "kind", "a path gives something else than polylines" );
		check( h.size()==1 && h[0].closed && h[0].pts.size()==3 && h[0].pts[0].x==9 && h[0].pts[0].y==9 && h[0].pts[1].x==8 && h[0].pts[1].y==8 && h[0].pts[2].x==5 && h[0].pts[2].y==8,
			"next-path", [&]{ return "the next path reads "+show(h); } );
		if( r.st==NoClaim ) return;
		if( r.st==Refuse ) { check( g.empty(), "accepted", [&]{ return "malformed or unsupported data gives "+show(g); } ); return; }
		bool same=g.size()==r.out.size();
		for( size_t i=0;i<g.size()&&same;i++ )
		{
			auto &x=g[i], &y=r.out[i];
			if( x.pts.size()!=y.pts.size() ) { same=false; break; }
			for( size_t j=0;j<x.pts.size();j++ ) same &= std::fabs(x.pts[j].x-y.pts[j].x)<1e-9 && std::fabs(x.pts[j].y-y.pts[j].y)<1e-9;
			if( !(y.ends && !y.closed) ) same &= x.closed==y.closed;  // an open subpath ending where it starts has no exact counterpart
		}
		check( same, "shapes", [&]{ return "got "+show(g)+", expected "+r.text(); } );
		uint64_t hh=g.size(); for( auto& s: g ) { hh=mix(hh,s.closed); for( auto& p: s.pts ) hh=mix(hh,mix(hd(p.x),hd(p.y))); } outcome(hh);
	}, [&]{ return str( "d='",esc(d),"'",text?" (parsed document)":"" ); } );
}

static const char* seps[]={ " ", ",", " , ", "\n", "\t ", "\r\n", "", "  " };
/// writes a structured path; style: which separators are used
struct Cmd { char c; int rep; };
static std::string write( const std::vector<Cmd>& v, int style, const std::vector<std::string>& vals )
{
	std::string o; size_t k=0; std::string s=seps[style%8]; 
	if( style==5||style==7 ) o+=" ";
	for( auto& c: v )
	{
		o+=c.c; int n = strchr("HhVv",c.c)?1:strchr("Zz",c.c)?0:2;
		if( style==0||style==3||style==7 ) if( n ) o+= style==3?"\n":" ";
		for( int i=0;i<n*c.rep;i++ )
		{
			std::string x=vals[k++%vals.size()];
			if( i ) o+= (s.empty() && x[0]!='-' && x[0]!='+') ? " " : s;
			o+=x;
		}
		if( style==3||style==4||style==7 ) o+= style==4?"\t":" ";
	}
	return o;
}

int main( int argc, char** argv )
{
	init( argc, argv );
	bool th=thorough();
	// every short string of tokens, valid or not
	section("tokens");
	{
		static const char* T[]={ "M","m","L","l","h","V","z","1","-2",".5"," ",",","C" };
		const int NT=13;
		for( const char* pre: { "M3 4","","M3 4L5 9 7 1z" } )
			for( int n=0;n<=(th?6:5);n++ )
			{
				std::vector<int> ix(n,0);
				while( true )
				{
					std::string d=pre; for( int k: ix ) d+=T[k];
					pathCase( d );
					int p=n-1; while( p>=0 && ++ix[p]==NT ) ix[p--]=0;
					if( p<0 ) break;
				}
			}
	}
	// every sequence of commands, all of them well formed
	section("programs");
	{
		static const std::vector<std::string> vals{ "3","-4","10","25","-7","6.5","1","-12","40","0.25","-0.5","8","-31","2","17" };
		static const char* L="MmLlHhVvZz";
		for( char m: {'M','m'} ) for( int r0=1;r0<=3;r0++ )
			for( int n=0;n<=(th?5:4);n++ )
			{
				if( n==5 && r0>1 ) continue;
				std::vector<int> ix(n,0); const int B=19;      // 9 letters x2 repetitions (z once)
				while( true )
				{
					std::vector<Cmd> v{ {m,r0} };
					for( int k: ix ) v.push_back( k<16 ? Cmd{L[k/2],1+k%2} : k==16 ? Cmd{'Z',1} : k==17 ? Cmd{'z',1} : Cmd{'l',3} );
					for( int st=0; st<(n<=2?8:n==3?3:1); st++ ) pathCase( write(v,st,vals), n<=2 );
					int p=n-1; while( p>=0 && ++ix[p]==B ) ix[p--]=0;
					if( p<0 ) break;
				}
			}
	}
	// long paths
	section("large");
	{
		std::vector<std::string> vals; for( int i=0;i<61;i++ ) vals.push_back( str( i%3==1?"-":"", 1+(i*37)%91, i%4==3?".5":"" ) );
		static const char* L="MmLlHhVv";
		std::vector<int> N{8,9,12,13,16,17,24,33}; if( th ) for( int i: {10,11,14,15,18,19,20,25,32,40,48,64,65,100,128,129} ) N.push_back(i);
		for( int n: N ) for( int st=0;st<8;st++ )
		{
			for( char m: {'M','m'} ) { pathCase( write( {{m,n}}, st, vals ), true ); for( int k=2;k<8;k++ ) pathCase( write( {{m,1},{L[k],n},{'z',1}}, st, vals ), true ); }
			for( int a=0;a<8;a++ ) for( int b=0;b<8;b++ ) for( int z=0;z<2;z++ )
			{
				std::vector<Cmd> v{ {'M',1} }; for( int i=0;i<n;i++ ) { v.push_back( {L[a],1+i%2} ); v.push_back( {L[b],1} ); if( z && i%3==2 ) v.push_back( {'z',1} ); }
				pathCase( write(v,st,vals), st==0 );
			}
			{ std::vector<Cmd> v; for( int i=0;i<n;i++ ) { v.push_back( {'M',1} ); v.push_back( {'l',2} ); v.push_back( {'Z',1} ); } pathCase( write(v,st,vals), true ); }
		}
	}
	// coincident points
	section("coincident");
	{
		for( int n=1;n<=(th?5:4);n++ )
			for( int bits=0; bits<(1<<(2*n)); bits++ )
				for( int zz=0; zz<(1<<n); zz++ )       // z after each vertex or not
					for( int rel=0;rel<2;rel++ )
					{
						std::string d="M0 0";
						for( int i=0;i<n;i++ )
						{
							d+= rel?"l":"L"; d+= (bits>>(2*i)&1)?"1":"0"; d+=","; d+= (bits>>(2*i+1)&1)?"1":"0";
							if( zz>>i&1 ) d+="z";
						}
						pathCase( d );
					}
	}
	// number forms and separators
	section("numbers");
	{
		static const char* N[]={ "0","7","-7","+7","3.25","-3.25",".5","-.5","+.5","1e2","1E+2","25e-1","-1.5E1","00.50","120","2.","-0","1e","-","1.5.5","--1","+-1","1e+","5e-2.5" };
		static const char* X[]={ " ",","," , ","\n","\r\n\t","",", "," ," };
		for( auto a: N ) for( auto b: N ) for( auto s: X )
		{
			std::string A(a),B(b),S(s);
			pathCase( "M"+A+S+B+"L50 60 70 90" );
			pathCase( "M10 20l"+A+S+B+"z", true );
			pathCase( "M10 20h"+A+S+B+" v 5" );
			pathCase( "M1 2V"+A+"H"+B+s );
			pathCase( std::string(s)+"M"+S+"5 6L"+A+S+B+S+"1"+S+"z"+S, true );
			pathCase( "m"+A+S+B+S+B+S+A+"Z"+S+"l1"+S+A );
		}
	}
	// one illegal or unsupported character at every place of a valid path
	section("malformed");
	{
		static const char* base[]={ "M1 2L3 4 5 6zm7 8 l-9-10.5 1e1,2z", "m 10,20 h 30 v -40 H 5 z", "M0,0 L10,0 L10,10 Z M 20,20 H 30 V 40" };
		static const char* bad="#!xCcSqTtAaQs$;:/()_bfg?\x7f\xe9" "e";
		for( auto d: base )
		{
			std::string D(d);
			for( size_t i=0;i<=D.size();i++ )
			{
				for( const char* c=bad; *c; c++ ) pathCase( D.substr(0,i)+*c+D.substr(i) );
				for( auto ins: { "1"," ",",",".","-","z","M","L","+","5 5","C1 2 3 4 5 6","Q 1 2 3 4","A 1 1 0 0 0 5 5" } ) pathCase( D.substr(0,i)+ins+D.substr(i) );
				if( i<D.size() ) pathCase( D.substr(0,i)+D.substr(i+1) );
				pathCase( D.substr(0,i) ); pathCase( D.substr(i) );
				for( size_t j=i+1;j<D.size();j++ ) pathCase( D.substr(0,i)+D.substr(j) );
			}
		}
	}
	return finish();
}
