#include "homhist.hpp"
int main( int argc, char** argv )
{
	init( argc, argv );
	const bool L=false;
	std::vector<int> all; for( int i=0;i<NMUT;i++ ) all.push_back(i); for( int i=0;i<NUSE;i++ ) all.push_back(OP_USE+i);
	for( int n=0;n<=(thorough()?5:4);n++ ) { section("double-depth"+std::to_string(n)); seqs( all, n, [&](auto& c){ history<double>( c, L ); } ); }
	{ std::vector<int> a=all; for( int i=NMUT;i<NALL;i++ ) a.push_back(i); section("double-neutral"); for( int n=1;n<=(thorough()?4:3);n++ ) seqs( a, n, [&](auto& c){ history<double>( c, L ); } ); }
	section("double-depth5-core"); seqs( {0,2,4,7,8,9,11,12,13,14,15,18,19,21,203,201}, 5, [&](auto& c){ history<double>( c, L ); } );
	section("double-depth6-core"); { std::vector<int> a{2,4,7,9,11,13,14,18,19,203}; if( !thorough() ) a.resize(8); seqs( a, 6, [&](auto& c){ history<double>( c, L ); } ); }
	for( int n=1;n<=(thorough()?3:2);n++ ) { section("float"+std::to_string(n)); seqs( all, n, [&](auto& c){ history<float>( c, L ); } ); section("long-double"+std::to_string(n)); seqs( all, n, [&](auto& c){ history<long double>( c, L ); } ); }
	return finish();
}
