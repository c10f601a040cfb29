#define h2d h2d_speed
#define CFG speed
#define HOMOG2D_OPTIMIZE_SPEED
#include "c30_body.hpp"
