#define h2d h2d_nowarn
#define CFG nowarn
#define HOMOG2D_NOWARNINGS
#include "c30_body.hpp"
