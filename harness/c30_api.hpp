// One scene and its answers, exchanged between the differently configured builds of the library.
#pragma once
#include <vector>
#include <string>
#include <cstring>
namespace c30 {
struct Scene { int p[5][2]; double r1,r2; };
struct Ans { const char* name; double v; bool exact; };
typedef void (*Fn)( const Scene&, int group, int t1, int t2, std::vector<Ans>& );   // t: 0 float 1 double 2 long double
void plain( const Scene&, int, int, int, std::vector<Ans>& );
void speed( const Scene&, int, int, int, std::vector<Ans>& );
void vrtp( const Scene&, int, int, int, std::vector<Ans>& );
void prtp( const Scene&, int, int, int, std::vector<Ans>& );
void nochecks( const Scene&, int, int, int, std::vector<Ans>& );
void nowarn( const Scene&, int, int, int, std::vector<Ans>& );
void longd( const Scene&, int, int, int, std::vector<Ans>& );
void all( const Scene&, int, int, int, std::vector<Ans>& );
const int NGROUPS=6;
}
