#define h2d h2d_vrtp
#define CFG vrtp
#define HOMOG2D_ENABLE_VRTP
#include "c30_body.hpp"
