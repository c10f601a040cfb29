#include <catch2/catch_all.hpp>
using Catch::Approx;
#undef INFO
#define INFO(x) if(true)
