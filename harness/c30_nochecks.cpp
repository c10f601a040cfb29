#define h2d h2d_nochecks
#define CFG nochecks
#define HOMOG2D_NOCHECKS
#include "c30_body.hpp"
