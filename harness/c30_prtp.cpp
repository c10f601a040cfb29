#define h2d h2d_prtp
#define CFG prtp
#define HOMOG2D_ENABLE_PRTP
#include "c30_body.hpp"
