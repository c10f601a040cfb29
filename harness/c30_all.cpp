#define h2d h2d_all
#define CFG all
#define HOMOG2D_ENABLE_VRTP
#define HOMOG2D_ENABLE_PRTP
#define HOMOG2D_OPTIMIZE_SPEED
#include "c30_body.hpp"
