// C35: the same probes and setters, in another source file
#include "c35_probe.hpp"
std::vector<c35::Ans> probeB( int type, bool noRad )
{
	static const Old<double> d; static const Old<long double> l;
	return type ? probe<long double>(l,noRad) : probe<double>(d,noRad);
}
void setB( int i, double v )
{
	switch( i ) { case 0: h2d::thr::nullDistance()=v; break; case 1: h2d::thr::nullOrthogDistance()=v; break; case 2: h2d::thr::nullAngleValue()=v; break; case 3: h2d::thr::nullDenom()=v; break; case 4: h2d::thr::nullDeter()=v; break; default: h2d::thr::doNotCheckRadius()=v; }
}
std::vector<double> readB() { using namespace h2d::thr; return { (double)nullDistance(), (double)nullOrthogDistance(), (double)nullAngleValue(), (double)nullDenom(), (double)nullDeter(), (double)doNotCheckRadius() }; }
