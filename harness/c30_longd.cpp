#define h2d h2d_longd
#define CFG longd
#define HOMOG2D_INUMTYPE long double
#include "c30_body.hpp"
