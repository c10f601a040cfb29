// C30: the same queries, compiled with every combination of numeric types and build options, on exhaustively
// enumerated scenes of five points in general position. The plain double build is the reference.
#include "mc.hpp"
#include "c30_api.hpp"
#include <algorithm>
using namespace c30;
namespace {
struct Cfg { const char* name; Fn f; };
const Cfg cfgs[]={ {"plain",plain}, {"OPTIMIZE_SPEED",speed}, {"ENABLE_VRTP",vrtp}, {"ENABLE_PRTP",prtp}, {"NOCHECKS",nochecks}, {"NOWARNINGS",nowarn}, {"INUMTYPE=long double",longd}, {"VRTP+PRTP+OPTIMIZE_SPEED",all} };
const char* tn[]={"float","double","long double"};
typedef long long LL;
LL cr( const int* a, const int* b, double cx, double cy ) { return llround( (b[0]-a[0])*(cy-a[1])-(b[1]-a[1])*(cx-a[0]) ); }
bool general( const Scene& s )
{
	for( int i=0;i<5;i++ ) for( int j=i+1;j<5;j++ )
	{
		for( int k=0;k<5;k++ ) if( k!=i && k!=j && cr( s.p[i], s.p[j], s.p[k][0], s.p[k][1] )==0 ) return false;
		// corners of the two rectangles not on any line
		for( int r=0;r<4;r+=2 ) for( int q=0;q<2;q++ ) if( cr( s.p[i], s.p[j], s.p[r+q][0], s.p[r+1-q][1] )==0 ) return false;
		LL l2=(s.p[i][0]-s.p[j][0])*(s.p[i][0]-s.p[j][0])+(s.p[i][1]-s.p[j][1])*(s.p[i][1]-s.p[j][1]);
		LL c1=cr( s.p[i], s.p[j], s.p[1][0], s.p[1][1] ), c2=cr( s.p[i], s.p[j], s.p[0][0], s.p[0][1] );
		LL R1=llround(s.r1*4), R2=llround(s.r2*4);
		if( 16*c1*c1==R1*R1*l2 || 16*c2*c2==R2*R2*l2 ) return false;   // a line tangent to a circle
	}
	return true;
}
/// end of the block starting at i
size_t endOf( const std::vector<Ans>& v, size_t i ) { size_t j=i; while( j<v.size() && strcmp( v[j].name, v[i].name )==0 ) j++; return j; }
void compare( const std::vector<Ans>& ref, const std::vector<Ans>& got, const Cfg& c, int t1, int t2 )
{
	bool nock = c.f==nochecks;
	bool fl = t1==0||t2==0;
	double tol = fl ? 1e-3 : 1e-7;
	size_t i=0,j=0;
	auto ctx=[&]( const char* n ){ return std::string(n)+", "+c.name+", <"+tn[t1]+","+tn[t2]+">: "; };
	while( i<ref.size() || j<got.size() )
	{
		if( i>=ref.size() || j>=got.size() || strcmp( ref[i].name, got[j].name ) ) { mc::fail( "blocks", ctx( i<ref.size()?ref[i].name:"?" )+"different queries answered" ); return; }
		size_t ie=endOf(ref,i), je=endOf(got,j);
		bool skip = nock && ie-i==1 && ref[i].v==-777;
		if( !skip )
		{
			if( !mc::check( ie-i==je-j, "shape", [&]{ return ctx(ref[i].name)+std::to_string(je-j)+" values instead of "+std::to_string(ie-i)+( je-j==1&&got[j].v==-777?" (an error was raised)":"" ); } ) ) { i=ie; j=je; continue; }
			for( size_t k=0;k<ie-i;k++ )
			{
				auto a=ref[i+k]; auto b=got[j+k];
				bool ok = a.exact ? a.v==b.v : ( ( std::isnan(a.v) && std::isnan(b.v) ) || std::fabs(a.v-b.v) <= tol*std::max( 1., std::fabs(a.v) ) );
				if( !mc::check( ok, a.exact?"answer":"value", [&]{ char z[200]; snprintf( z, 200, "value #%d is %.12g, with plain double it is %.12g", (int)k, b.v, a.v ); return ctx(a.name)+z; } ) ) break;
			}
		}
		i=ie; j=je;
	}
}
void scene( const Scene& s )
{
	if( !general( s ) ) return;
	for( int g=0; g<NGROUPS; g++ )
	{
		mc::section( "g"+std::to_string(g) );
		mc::run( [&]
		{
			std::vector<Ans> ref; plain( s, g, 1, 1, ref );
			uint64_t h=0; for( auto& a: ref ) h=mc::mix( h, mc::hd(a.v) );
			mc::outcome( h );
			for( auto& c: cfgs ) for( int t=0;t<9;t++ )
			{
				if( c.f==plain && t==4 ) continue;
				std::vector<Ans> got; got.reserve( ref.size() );
				c.f( s, g, t/3, t%3, got );
				mc::step( got.size() );
				compare( ref, got, c, t/3, t%3 );
			}
		}, [&]{ std::ostringstream o; o<<"points"; for( auto& p: s.p ) o<<" ("<<p[0]<<","<<p[1]<<")"; o<<" radii "<<s.r1<<" "<<s.r2; return o.str(); } );
	}
}
}
void explore()
{
	int px[5]={0,1,2,3,4};
	int nx=0;
	do
	{
		bool use = mc::thorough() || true;
		if( !use ) continue;
		int py[5]={0,1,2,3,4};
		do
		{
			for( int sc=0; sc<( mc::thorough()?2:1 ); sc++ )
			{
				static const int nl[5]={0,1,3,4,7};
				Scene s; for( int i=0;i<5;i++ ) { s.p[i][0]= sc? nl[px[i]]-2 : px[i]; s.p[i][1]= sc ? 2*py[i]-5+(py[i]==4) : py[i]; }
				for( int r=0; r<( mc::thorough()?3:2 ); r++ ) { s.r1=r+0.5; s.r2=( 2*r )%3+1.25; scene( s ); }
			}
		}
		while( std::next_permutation( py, py+5 ) );
	}
	while( std::next_permutation( px, px+5 ) );
}
int main( int argc, char** argv ) { mc::init( argc, argv ); explore(); return mc::finish(); }
