// C35: the thresholds in force, and only them, decide the tolerant answers, everywhere in the program
#include "mc.hpp"
#include "c35_probe.hpp"
using namespace mc;
std::vector<c35::Ans> probeB( int type, bool noRad ); void setB( int, double ); std::vector<double> readB();
static void setA( int i, double v )
{
	switch( i ) { case 0: h2d::thr::nullDistance()=v; break; case 1: h2d::thr::nullOrthogDistance()=v; break; case 2: h2d::thr::nullAngleValue()=v; break; case 3: h2d::thr::nullDenom()=v; break; case 4: h2d::thr::nullDeter()=v; break; default: h2d::thr::doNotCheckRadius()=v; }
}
static std::vector<double> readA() { using namespace h2d::thr; return { (double)nullDistance(), (double)nullOrthogDistance(), (double)nullAngleValue(), (double)nullDenom(), (double)nullDeter(), (double)doNotCheckRadius() }; }
typedef std::array<int,6> St;                       // index of the value of each threshold, and of the radius flag
static const char* names[]={"nullDistance","nullOrthogDistance","nullAngleValue","nullDenom","nullDeter","doNotCheckRadius"};
static std::vector<std::vector<double>> vals()
{
	return { {1e-10,1e-6,1e-2}, {1e-13,1e-6,1e-2}, {1e-3,1e-7,0.1}, {1e-10,1e-5,1e-2}, {1e-15,1e-6,1e-2}, {0,1} };   // the first one is the value at the start of the program
}
static const auto V=vals();
static std::string dsc( const St& s ) { std::string o; for( int i=0;i<6;i++ ) o+=str( i?" ":"", names[i], '=', V[i][s[i]] ); return o; }
static void verify( const std::vector<c35::Ans>& r, const St& s, const char* file )
{
	using namespace c35; step( r.size() );
	uint64_t h=7;
	for( auto& a: r )
	{
		double t=V[a.thr][s[a.thr]]; bool ex = a.gap<t && !a.exempt;
		check( a.below==ex, a.what, [&]{ return str( file,", gap ",a.gap,", ",names[a.thr],"=",t,": answers as ",(a.below?"under":"over")," the threshold" ); } );
		h=mix(h,a.below);
	}
	outcome( h );
}
static void verifyAll( const St& s )
{
	static const Old<double> d; static const Old<long double> l;
	bool k=s[5];
	for( int i=0;i<6;i++ ) check( readA()[i]==V[i][s[i]] && readB()[i]==V[i][s[i]], "read", [&]{ return str( names[i],": ",readA()[i],"/",readB()[i]," expected ",V[i][s[i]] ); } );
	verify( probe<double>(d,k), s, "first file" ); verify( probeB(0,k), s, "second file" );
	verify( probe<long double>(l,k), s, "first file, long double" ); verify( probeB(1,k), s, "second file, long double" );
	std::ostringstream o; h2d::thr::printThresholds( o ); std::istringstream in( o.str() ); std::string w; std::vector<double> p;
	while( in>>w ) { auto e=w.find("()="); if( e!=std::string::npos ) { int n=-1; for( int i=0;i<5;i++ ) if( w.find(names[i])!=std::string::npos ) n=i; double v=std::stod(w.substr(e+3)); if( n==(int)p.size() ) p.push_back(v); } }
	bool ok=p.size()==5; for( size_t i=0;ok&&i<5;i++ ) ok=near(p[i],V[i][s[i]],1e-5) && std::fabs(p[i]-V[i][s[i]])<=1e-5*V[i][s[i]];
	check( ok, "printed", [&]{ return o.str(); } );
}
static void go( const St& s, int via ) { for( int i=0;i<6;i++ ) ( (via>>(i%2))&1 ? setB : setA )( i, V[i][s[i]] ); }
// questions asked before: the values they found must not stay
static void ask( const St& s ) { static const Old<double> d; static const Old<long double> l; step( 4 ); probe<double>(d,s[5]); probeB(1,s[5]); probe<long double>(l,s[5]); probeB(0,s[5]); }
static const St start{0,0,0,0,0,0};
int main( int argc, char** argv )
{
	init( argc, argv );
	section("start");
	run( [&]{ verifyAll( start ); }, []{ return "values given at build time"; } );
	section("transitions");       // every state x every assignment of one threshold, done in either file
	std::vector<St> all; { St s{}; for( s[0]=0;s[0]<3;s[0]++ ) for( s[1]=0;s[1]<3;s[1]++ ) for( s[2]=0;s[2]<3;s[2]++ ) for( s[3]=0;s[3]<3;s[3]++ ) for( s[4]=0;s[4]<3;s[4]++ ) for( s[5]=0;s[5]<2;s[5]++ ) all.push_back(s); }
	for( auto& s: all ) for( int i=0;i<6;i++ ) for( int v=0;v<(int)V[i].size();v++ ) for( int f=0;f<2;f++ )
		run( [&]{ ask( start ); go( s, 2*f+v%2 ); ask( s ); St t=s; t[i]=v; ( f ? setB : setA )( i, V[i][v] ); verifyAll( t ); go( start, 0 ); },
			[&]{ return str( dsc(s)," then ",names[i],"=",V[i][v],f?" (second file)":" (first file)" ); } );
	if( thorough() )
	{
		section("two transitions");
		for( auto& s: all ) for( int i=0;i<6;i++ ) for( int v=0;v<(int)V[i].size();v++ ) for( int j=0;j<6;j++ ) for( int w=0;w<(int)V[j].size();w++ ) for( int f=0;f<2;f++ )
			run( [&]{ ask( start ); go( s, 2*f+v%2 ); St t=s; t[i]=v; ( f ? setB : setA )( i, V[i][v] ); t[j]=w; ( f ? setA : setB )( j, V[j][w] ); verifyAll( t ); go( start, 0 ); },
				[&]{ return str( dsc(s)," then ",names[i],"=",V[i][v],f?" (second file)":" (first file)"," and ",names[j],"=",V[j][w]," in the other one" ); } );
	}
	return finish();
}
